"""C29 drawings after every bounded sequence of updates against fresh drawings of the last state."""
import itertools
import numpy as np
import pandas as pd
import netCDF4
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from matplotlib.backends.backend_agg import FigureCanvasAgg
from mc.run import Space, Viol
from mc.model import phys, nums, times, td, assemble, Chan, step, Force, store
from mc.repo import visualise, core, out
from checks import morph
from checks.C18 import seconds
from checks.C20 import put, START
from checks.conf import Scratch, setup, config, load

LEVEL = 'model_checking'
ASSUMPTIONS = ['drawings are compared by the data of their lines, polygons, arrows and titles, not by pixels, axis limits are not compared',
               'a live view of the very step in which the outlet breached shows the outlet of the start of that step, it is not compared',
               'drawing to the canvas is left out except in the space that draws']
ROWS = [((0, 1.5), 'BBLLOOLBB'), ((-1, -2.5), 'BBOOLLLBB'), (None, 'BBLLLLLBB'), ((0, 0), 'BBLLOLLBB'), (('relic', 1), 'BBLLLOOBB'), ((2, .5), 'BBLLLOOBB'),
        ((-1, .4), 'BBLOOLLBB'), ((0, -.5), 'BBLLOLLBB'), ((1, 2.98), 'BoLLLOOBB'), ((-2, -2.98), 'BBOLLLcBB')]
WIDE = [((-1, .5), 'BBBOOLLBB'), ((2, .5), 'BBLLLOOBB'), ((-1, -2.5), 'BBoOLLLBB'), ((1, 3.5), 'BBLLLOooB'), ((-1, -1), 'BBBOLLLBB')]     # channel wider than the transect spacing at its upstream end
P = phys()


class View:
    """What one state shows in each figure."""
    def __init__(self, k):
        o, row = ROWS[k] if k < len(ROWS) else WIDE[k - len(ROWS)]
        self.k = k
        s = self.s = morph.make(o, row, sub=k, lagslope=.01)
        if k >= len(ROWS):
            s.ShoreY[~np.isnan(s.ShoreY[:, 2]), 2] -= 29.
        rng = np.arange(s.ShoreX.size)
        c = self.c = Chan(assemble(s, P, nums()))
        if k % 3 == 1:                           # flow changes direction along the channel
            store(s, c, c.h, c.V * np.where(np.arange(c.V.size) % 2 == 0, 1., -.6))
            c = self.c = Chan(assemble(s, P, nums()))
        self.closed = bool(c.Closed)
        self.ix = np.asarray(c.OutletChanIx)
        self.wp, self.dir = [(3000., .3), (0., 0.), (8000., -1.2), (2000., 2.)][k % 4]
        # (transports also vanish altogether, together or one of them)
        self.lst, self.cst = .01 * np.sin(k + rng[:-1]) * (k % 4 not in (1, 2)), .002 * np.abs(np.cos(k + rng)) * (k % 4 not in (1, 3))
        self.bed = .01 * np.sin(.7 * k + np.arange(c.z.size - 1)) * (k % 4 != 3)
        self.time = START + pd.Timedelta(minutes=13 * k)
        n = 1 + k % 3
        self.bdy = pd.DataFrame({'Qin': 50. + k + np.arange(n), 'Qout': 40. - k + np.arange(n), 'SeaLevel': .1 * k + .3 * np.arange(n)},
                                index=pd.date_range(START, periods=n, freq='%dmin' % (k + 5)))
        self.sea = (.3, 2.6, -.4)[k % 3]
        self.owl = s.OutletDep + s.ShoreZ[:, 1]


def figure_of(h):
    return next(x for x in (h.values() if isinstance(h, dict) else h) if isinstance(x, Figure))


def new(kind, v, aoi=None):
    s, c = v.s, v.c
    a = dict(AreaOfInterest=aoi) if aoi else {}
    if kind == 'plan':
        return visualise.modelView(s.ShoreX, s.ShoreY, s.OutletEndX, s.OutletEndWidth, v.ix, P['RiverWidth'], P['SpitWidth'], ShoreZ=s.ShoreZ, WavePower=v.wp,
                                   EDir_h=v.dir, LST=v.lst, CST=v.cst, PlotTime=v.time, Closed=v.closed, **a)
    if kind == 'map':
        return visualise.modelView(s.ShoreX, s.ShoreY, s.OutletEndX, s.OutletEndWidth, v.ix, P['RiverWidth'], P['SpitWidth'], PlotTime=v.time, Closed=v.closed, **a)
    if kind == 'long':
        return visualise.longSection(c.dx, c.z, c.B, c.h, c.V, v.bed, PlotTime=v.time, **a)
    if kind == 'long-bare':
        return visualise.longSection(c.dx, c.z, c.B, c.h, c.V, PlotTime=v.time, **a)
    if kind == 'bdy':
        return visualise.bdyCndFig(v.bdy)
    return visualise.newTransectFig(s.ShoreX, s.ShoreY, s.ShoreZ, s.LagoonWL, v.owl, v.sea, P['BeachSlope'], P['BackshoreElev'], P['ClosureDepth'], P['BeachTopElev'], float(kind), **a)


def update(kind, h, v):
    s, c = v.s, v.c
    if kind == 'plan':
        visualise.updateModelView(h, s.ShoreX, s.ShoreY, s.OutletEndX, s.OutletEndWidth, v.ix, Closed=v.closed, ShoreZ=s.ShoreZ, WavePower=v.wp, EDir_h=v.dir, LST=v.lst,
                                  CST=v.cst, PlotTime=v.time)
    elif kind == 'map':
        visualise.updateModelView(h, s.ShoreX, s.ShoreY, s.OutletEndX, s.OutletEndWidth, v.ix, Closed=v.closed, PlotTime=v.time)
    elif kind == 'long':
        visualise.updateLongSection(h, c.dx, c.z, c.B, c.h, c.V, v.bed, PlotTime=v.time)
    elif kind == 'long-bare':
        visualise.updateLongSection(h, c.dx, c.z, c.B, c.h, c.V, PlotTime=v.time)
    elif kind == 'bdy':
        visualise.updateBdyCndFig(h, v.bdy)
    else:
        visualise.updateTransectFig(h, s.ShoreY, s.ShoreZ, s.LagoonWL, v.owl, v.sea)


def shown(fig):
    """Data of everything drawn."""
    r = []
    for i, ax in enumerate(fig.axes):
        for l in ax.lines:
            x, y = [np.ravel(np.asarray(z, float) if not np.issubdtype(np.asarray(z).dtype, np.datetime64) else np.asarray(z).astype('datetime64[ns]').astype(float))
                    for z in (l.get_xdata(orig=True), l.get_ydata(orig=True))]
            r.append((i, 'line', '%s %s %s %s' % (l.get_label() if not str(l.get_label()).startswith('_') else '', l.get_color(), l.get_linestyle(), l.get_zorder()), np.r_[x, y]))
        for p in ax.patches:
            xy = p.get_xy() if hasattr(p, 'get_xy') else p.get_path().vertices
            r.append((i, 'patch', '%s %s' % (type(p).__name__, p.get_zorder()), np.ravel(xy)))
        for q in ax.collections:
            d = [np.ravel(np.asarray(q.get_offsets(), float))]
            for f in ('U', 'V'):
                if hasattr(q, f):
                    d.append(np.ravel(np.asarray(getattr(q, f), float)))
            r.append((i, 'collection', '%s %s' % (type(q).__name__, q.get_zorder()), np.concatenate(d)))
        r.append((i, 'title', ax.get_title(loc='left') + '|' + ax.get_title() + '|' + ax.get_title(loc='right'), np.zeros(0)))
    r.append((-1, 'title', fig.get_suptitle(), np.zeros(0)))
    return sorted(r, key=lambda t: t[:3])


def differ(a, b, tol=1e-9):
    if [x[:3] for x in a] != [x[:3] for x in b]:
        return 'elements %s instead of %s' % ([x[:3] for x in a if x[:3] not in [y[:3] for y in b]], [x[:3] for x in b if x[:3] not in [y[:3] for y in a]])
    for x, y in zip(a, b):
        if x[3].shape != y[3].shape or not np.allclose(x[3], y[3], rtol=tol, atol=tol, equal_nan=True):
            return '%s %s shows %s instead of %s' % (x[1], x[2], np.round(x[3], 4).tolist()[:40], np.round(y[3], 4).tolist()[:40])
    return None


def through(h, v):
    """The drawn lines pass through the transects of the state."""
    s, X = v.s, v.s.ShoreX

    def pts(name):
        l = h[name]
        x, y = np.ravel(np.asarray(l.get_xdata(), float)), np.ravel(np.asarray(l.get_ydata(), float))
        return np.c_[x, y]

    def has(name, x, y):
        p = pts(name)
        if not np.any(np.all(np.abs(p - [x, y]) < 1e-9, axis=1)):
            raise Viol('%s does not pass through (%g, %g): %s' % (name, x, y, np.round(p, 3).tolist()))
    for i, x in enumerate(X):
        if abs(x) >= P['RiverWidth'] / 2:
            has('CliffLine', x, s.ShoreY[i, 4])
        if not np.isnan(s.ShoreY[i, 1]):
            has('ChannelLine', x, s.ShoreY[i, 1])
            has('ChannelLine', x, s.ShoreY[i, 2])
        d = np.inf if v.closed else abs(x - s.OutletEndX[1])
        if d >= s.OutletEndWidth / 2:
            has('ShoreLine', x, s.ShoreY[i, 0])
        w = 0. if v.closed else s.ShoreY[v.ix[0], 1] - s.ShoreY[v.ix[0], 2]
        if v.closed or abs(x - s.OutletEndX[0]) >= w / 2 + 1e-9:
            has('LagoonLine', x, s.ShoreY[i, 3])
        if 'CrestLine' in h:
            has('CrestLine', x, s.ShoreZ[i, 0])
    if not v.closed:
        p = pts('OutletLine')
        for i in v.ix:                           # each bank where the channel is between the ends
            if all(abs(X[i] - e) > (w if k == 0 else float(s.OutletEndWidth)) / 2 + .1 for k, e in enumerate(s.OutletEndX)):
                has('OutletLine', X[i], s.ShoreY[i, 1])
                has('OutletLine', X[i], s.ShoreY[i, 2])


def parts(x, y):
    """Polylines between missing points."""
    out, cur = [], []
    for a, b in zip(np.ravel(np.asarray(x, float)), np.ravel(np.asarray(y, float))):
        if np.isnan(a) or np.isnan(b):
            out.append(np.array(cur).reshape(-1, 2))
            cur = []
        else:
            cur.append((a, b))
    out.append(np.array(cur).reshape(-1, 2))
    return [q for q in out if len(q)]


def inside(polys, x, y):
    """Even-odd rule over all the rings."""
    n = 0
    for q in polys:
        for (a, b), (c, d) in zip(q, np.roll(q, -1, axis=0)):
            if (b > y) != (d > y) and x < a + (y - b) * (c - a) / (d - b):
                n += 1
    return n % 2 == 1


def plan(h, v):
    """Where every line, polygon and arrow of a plan view has to be."""
    s, X, R, E = v.s, v.s.ShoreX, P['RiverWidth'] / 2, v.s.OutletEndX
    prof = lambda col: lambda x: np.interp(x, X, s.ShoreY[:, col])
    line = {n: parts(h[n].get_xdata(), h[n].get_ydata()) for n in ('ShoreLine', 'LagoonLine', 'CliffLine', 'OutletLine', 'RiverLine')}
    same = lambda a, b: abs(a - b) < 1e-9
    if v.closed:
        gap = dict(CliffLine=(-R, R))
    else:
        w, W = s.ShoreY[v.ix[0], 1] - s.ShoreY[v.ix[0], 2], float(s.OutletEndWidth)
        lag = X[s.ShoreY[:, 3] > s.ShoreY[:, 4]]
        u = (max(E[0] - w / 2, lag.min() - morph.DX), min(E[0] + w / 2, lag.max() + morph.DX))
        d = (E[1] - W / 2, E[1] + W / 2)
        gap = dict(CliffLine=(-R, R), LagoonLine=u, ShoreLine=d)
    for n, col in (('ShoreLine', 0), ('LagoonLine', 3), ('CliffLine', 4)):
        for q in line[n]:
            for x, y in q:
                if not same(y, prof(col)(x)):
                    raise Viol('%s at (%g, %g), the profile is at %g' % (n, x, y, prof(col)(x)), points=q.tolist())
        ends = [(q[0, 0], q[-1, 0]) for q in line[n]]
        want = [(X[0], gap[n][0]), (gap[n][1], X[-1])] if n in gap else [(X[0], X[-1])]
        if len(ends) != len(want) or not np.allclose(ends, want):
            raise Viol('%s runs over %s, expected %s' % (n, ends, want))
    for q, x in zip(line['RiverLine'], (-R, R)):
        if not (np.allclose(q[:, 0], x) and same(q[:, 1].max(), prof(4)(x)) and q[:, 1].min() < np.nanmin(s.ShoreY) - 100):
            raise Viol('river bank drawn at %s' % q.tolist())
    clear = np.ones(X.size, bool)
    if v.closed:
        if line['OutletLine']:
            raise Viol('closed outlet drawn at %s' % line['OutletLine'])
        if parts(h['ShoreDots'].get_xdata(), h['ShoreDots'].get_ydata()):
            raise Viol('shoreline in an outlet that is closed')
    else:
        dots = parts(h['ShoreDots'].get_xdata(), h['ShoreDots'].get_ydata())
        want = [(x, y) for x, y in zip(X, s.ShoreY[:, 0]) if d[0] < x < d[1]]
        if [tuple(q) for p_ in dots for q in p_] != want:
            raise Viol('shoreline across the outlet mouth shown at %s instead of %s' % (dots, want))
        if len(line['OutletLine']) != 2:
            raise Viol('outlet with %d banks' % len(line['OutletLine']))
        o = np.sort(v.ix)
        front, rear = [lambda x, k=k: np.interp(x, X[o], s.ShoreY[o, k]) for k in (1, 2)]
        for k, q in enumerate(line['OutletLine']):
            a, b = u[k], d[k]
            if not np.allclose(q[[0, -1]], [(a, prof(3)(a)), (b, prof(0)(b))]):
                raise Viol('bank from %s to %s instead of from the lagoon edge at %g to the shoreline at %g' % (q[0].tolist(), q[-1].tolist(), a, b))
            outer = a < b if k == 0 else a >= b
            body = q[1:-1] if outer else q[1:-3]
            for j, (x, y) in enumerate(body):
                t = front(x) if outer else rear(x)
                if j == 0:
                    t = max(t, prof(3)(x))
                if outer and j == len(body) - 1:
                    t = min(t, prof(0)(x))
                if not (same(y, t) and min(a, b) - 1e-9 <= x <= max(a, b) + 1e-9):
                    # with several channel transects the bank runs along them, elsewhere straight
                    raise Viol('%s bank at (%g, %g), the channel edge is at %g' % ('outer' if outer else 'inner', x, y, t), points=q.tolist(), state=v.k)
            if not outer:
                x, y = q[-3]
                if not prof(3)(x) - 1e-9 <= y <= prof(0)(x) + 1e-9:
                    raise Viol('inner bank at (%g, %g) outside the barrier' % (x, y), points=q.tolist())
        for e, m in ((E[0], w / 2), (E[1], W / 2)):
            clear &= np.abs(X - e) > m + morph.DX
    water = parts(*np.asarray(h['WaterFill'].get_xy(), float).T)
    cliff = parts(*np.asarray(h['CliffFill'].get_xy(), float).T)
    for i, x in enumerate(X):
        Y = s.ShoreY[i]
        x = x + (.001 if x < X[-1] else -.001)
        t = []
        if abs(abs(x) - R) > .1:
            t += [(Y[4] - 20., abs(x) < R, 'behind the cliff line')]
            if inside(cliff, x, Y[4] - 20.) != (abs(x) > R) or inside(cliff, x, Y[4] + 4.):
                raise Viol('cliff hatched wrongly at %g' % x)
        if clear[i]:
            if Y[3] - Y[4] > 3:
                t.append(((Y[3] + Y[4]) / 2, True, 'in the lagoon'))
            t.append((Y[0] + 10., True, 'at sea'))
            on = not v.closed and i in v.ix and min(E) < x < max(E)
            if on:
                t += [((Y[1] + Y[2]) / 2, True, 'in the channel'), ((Y[0] + Y[1]) / 2, False, 'on the outer barrier'), ((Y[2] + Y[3]) / 2, False, 'on the inner barrier')]
            elif Y[0] - Y[3] > 3:
                t.append(((Y[0] + Y[3]) / 2, False, 'on the barrier'))
        for y, wet, where in t:
            if inside(water, x, y) != wet:
                raise Viol('water %s at %g %s' % ('missing' if wet else 'shown', x, where), y=y, row=Y.tolist(), state=v.k)
    if 'LstQuiver' in h:
        mid = lambda a: (a[:-1] + a[1:]) / 2
        for n, xy, U, V in (('LstQuiver', np.c_[mid(X), mid(s.ShoreY[:, 0])], v.lst, 0 * v.lst), ('CstQuiver', np.c_[X, s.ShoreY[:, 0]], 0 * v.cst, -v.cst)):
            q = h[n]
            if not (np.allclose(q.get_offsets(), xy) and np.allclose(q.U, U) and np.allclose(q.V, V)):
                raise Viol('%s arrows %s at %s instead of %s at %s' % (n, np.c_[q.U, q.V].tolist(), np.asarray(q.get_offsets()).tolist(), np.c_[U, V].tolist(), xy.tolist()))
    if 'WaveArrow' in h:
        q = np.asarray(h['WaveArrow'].get_xy(), float) - [0., 200.]
        r = np.hypot(*q.T)
        tip = q[np.argmax(r)]
        if v.wp and abs(v.dir) < np.pi / 2:
            want = np.array([-np.sin(v.dir), -np.cos(v.dir)]) * v.wp * .01
            if np.dot(tip, want) / np.hypot(*want) < np.hypot(*want) - 1e-6 or abs(np.cross(tip, want)) > 1e-6 * np.dot(tip, want) or r.max() > 2 * np.hypot(*want):
                raise Viol('wave arrow to %s instead of along %s' % (tip, want))
        elif r.max() > 1.:
            raise Viol('wave arrow to %s with no waves towards the shore' % tip)


def contents(kind, h, v):
    """What the drawing of one state has to show."""
    s, c = v.s, v.c

    def line(name, x, y):
        l = h[name] if isinstance(h, dict) else name
        gx, gy = np.ravel(np.asarray(l.get_xdata(orig=False), float)), np.ravel(np.asarray(l.get_ydata(orig=False), float))
        if gx.shape != np.shape(x) or not (np.allclose(gx, x, equal_nan=True) and np.allclose(gy, y, equal_nan=True, atol=1e-9)):
            raise Viol('%s shows %s instead of %s' % (name, np.c_[gx, gy].tolist()[:20], np.c_[x, y].tolist()[:20]))
    if kind in ('long', 'long-bare'):
        D = np.array([sum(c.dx[:i]) for i in range(c.z.size)])
        mid = lambda a: np.array([(a[i] + a[i + 1]) / 2 for i in range(len(a) - 1)])
        line('BedLine', D, c.z)
        line('WaterLine', D, c.z + c.h)
        line('EnergyLine', mid(D), mid(c.z + c.h) + mid(c.V) ** 2 / 2 / 9.81)
        line('WidthLine', D, c.B)
        line('FlowLine', D, c.V * c.h * c.B)
        line('VelLine', D, c.V)
        line('FrLine', D, np.abs(c.V) / np.sqrt(9.81 * c.h))
        if kind == 'long':
            line('QsLine', mid(D), v.bed * 3600)
    elif kind == 'bdy':
        import matplotlib.dates as md
        t = md.date2num(v.bdy.index.to_pydatetime())
        for k, col in ((3, 'Qin'), (4, 'Qout'), (5, 'SeaLevel')):
            line(h[k], t, v.bdy[col].values)
    else:
        i = int(np.argmin(np.abs(s.ShoreX - float(kind))))
        Y, Z = s.ShoreY[i], s.ShoreZ[i]
        has = lambda name: np.c_[np.ravel(np.asarray(h[name].get_xdata(), float)), np.ravel(np.asarray(h[name].get_ydata(), float))]
        g = [(Y[0] + (P['BeachTopElev'] + P['ClosureDepth']) / P['BeachSlope'], -P['ClosureDepth']), (Y[0], P['BeachTopElev']), (Y[0], Z[0])]
        w = [(Y[0], v.sea)]
        if np.isnan(Y[2]):
            g += [(Y[3], Z[0])]
        else:
            g += [(Y[1], Z[0]), (Y[1], Z[1]), (Y[2], Z[1]), (Y[2], Z[2]), (Y[3], Z[2])]
            w += [(Y[1], v.owl[i]), (Y[2], v.owl[i])]
        if Y[3] != Y[4]:
            g += [(Y[3], Z[3]), (Y[4], Z[3])]
            w += [(Y[3], s.LagoonWL[i]), (Y[4], s.LagoonWL[i])]
        g += [(Y[4], P['BackshoreElev'])]
        for name, want in (('GroundLine', g), ('WaterLine', w)):
            p, k = has(name), 0
            for q in want:                       # passes through all these, seaward to landward
                hit = np.where(np.all(np.isclose(p[k:], q, equal_nan=True), axis=1))[0]
                if not hit.size:
                    raise Viol('%s of transect %g does not pass through %s: %s' % (name, s.ShoreX[i], q, np.round(p, 3).tolist()))
                k += hit[0]
            if len(p) > len(want) + 2:
                raise Viol('%s of transect %g has other points: %s' % (name, s.ShoreX[i], np.round(p, 3).tolist()))


def real(c):
    """The map in real coordinates."""
    from checks.conf import rotate
    tr = 0
    with Quiet():
        for k in range(len(ROWS)):
            for origin in ([0., 0.], [1.5e6 + 12.25, 5.2e6 - 45.5]):
                plt.close('all')
                v = View(k)
                s = v.s
                visualise.mapView(s.ShoreX, s.ShoreY, np.array(origin), c['theta'])
                conv = rotate(c['theta'], origin)
                ax = plt.gca()
                by = {}
                for l in ax.lines:
                    by.setdefault(l.get_label(), []).append(np.c_[np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)])
                for name, col in (('Shore', 0), ('Lagoon', 3), ('Cliff', 4)):
                    w = conv(np.c_[s.ShoreX, s.ShoreY[:, col]])
                    if len(by.get(name, [])) != 1 or by[name][0].shape != w.shape or not np.allclose(by[name][0], w, rtol=0, atol=1e-6, equal_nan=True):
                        raise Viol('map shows the %s at %s instead of %s' % (name, [b.tolist() for b in by.get(name, [])], w.tolist()), state=k, origin=origin)
                i0 = int(np.argmin(np.abs(s.ShoreX)))
                w = conv(np.array([[0., s.ShoreY[i0, 4]]]))[0]
                r = by['River'][0]
                inland = conv(np.array([[0., s.ShoreY[i0, 4] - 1.]]))[0] - w
                if not np.allclose(r[1], w, rtol=0, atol=1e-6) or abs(np.cross(r[0] - r[1], inland)) > 1e-6 * np.linalg.norm(r[0] - r[1]) + 1e-6:
                    raise Viol('map shows the river at %s instead of reaching %s' % (r.tolist(), w.tolist()), state=k, origin=origin)
                if not np.allclose(by['Origin'][0][0], origin):
                    raise Viol('map shows the origin at %s' % by['Origin'][0].tolist(), origin=origin)
                # the other channel edge is one of the unlabelled lines
                w = conv(np.c_[s.ShoreX, s.ShoreY[:, 2]])
                if not any(p.shape == w.shape and np.allclose(p, w, rtol=0, atol=1e-6, equal_nan=True) for n, ps in by.items() if n.startswith('_') for p in ps):
                    raise Viol('map does not show the landward bank of the channel', state=k, origin=origin)
                # axis labels lie to the right and to seaward
                t = {x.get_text(): np.array(x.xy, float) - origin for x in ax.texts if hasattr(x, 'xy')}
                for n, d in (('X', [1., 0.]), ('Y', [0., 1.])):
                    u = conv(np.array([d]))[0] - origin
                    if n not in t or abs(np.cross(t[n], u)) > 1e-5 * (1 + np.linalg.norm(t[n])) or np.dot(t[n], u) <= 0:
                        raise Viol('map shows the %s axis towards %s instead of %s' % (n, t.get(n), u), state=k, origin=origin)
                tr += 1
        plt.close('all')
    return {'transitions': tr, 'states': [c['theta']], 'traces': tr}


class Quiet:
    """Figures are not drawn to the canvas."""
    def __enter__(self):
        self.old = FigureCanvasAgg.draw
        FigureCanvasAgg.draw = lambda *a, **k: None

    def __exit__(self, *a):
        FigureCanvasAgg.draw = self.old
        plt.close('all')


def sequences(c):
    kind, first, n = c['kind'], c['first'], c['n']
    views = [View(k) for k in c.get('rows', range(len(ROWS)))]
    import contextlib
    tr, states = 0, []
    with (contextlib.nullcontext() if c.get('draw') else Quiet()):
        fresh = []
        for v in views:
            h = new(kind, v)
            if kind in ('plan', 'map'):
                through(h, v)
                plan(h, v)
            else:
                contents(kind, h, v)
            fresh.append(shown(figure_of(h)))
            plt.close(figure_of(h))
        h = new(kind, views[first])
        # every sequence of n states as a walk over one figure (all histories are prefixes of it)
        for seq in itertools.product(range(len(views)), repeat=n):
            for j, k in enumerate(seq):
                before = [np.array(x, copy=True) for x in (views[k].s.ShoreX, views[k].s.ShoreY, views[k].s.ShoreZ, views[k].s.OutletEndX, views[k].c.h, views[k].bed, views[k].bdy.values)]
                update(kind, h, views[k])
                after = (views[k].s.ShoreX, views[k].s.ShoreY, views[k].s.ShoreZ, views[k].s.OutletEndX, views[k].c.h, views[k].bed, views[k].bdy.values)
                if not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(before, after)):
                    raise Viol('drawing changes the state', kind=kind, state=k)
                want = fresh[k]
                d = differ(shown(figure_of(h)), want)
                if d:
                    raise Viol('after showing %s the %s figure of state %s: %s' % ([first] + list(seq[:j]), kind, views[k].k, d))
                tr += 1
            states.append(seq)
        plt.close('all')
    if c.get('draw'):
        plt.close('all')
    return {'transitions': tr, 'states': states, 'traces': len(states)}


def boundary(figs, interval):
    """The boundary plot holds the start and the first computed time reaching each multiple of the interval."""
    with netCDF4.Dataset('F_TSoutputs.nc') as nc:
        t = seconds(nc)
        col = {v: np.asarray(nc.variables[v][:], float) for v in ('river_flow', 'lagoon_outflow', 'sea_level')}
    keep, due = [0], t[0] + pd.Timedelta(seconds=interval)
    for k in range(1, len(t)):
        if t[k] >= due:
            keep.append(k)
            due += pd.Timedelta(seconds=interval)
    want = [(v, col[v][keep]) for v in col]
    lines = []
    for f in figs:
        for a in f.axes:
            for l in a.lines:
                x = np.asarray(l.get_xdata(orig=True))
                if x.dtype.kind == 'M':
                    lines.append((pd.DatetimeIndex(x), np.asarray(l.get_ydata(orig=True), float)))
    if len(lines) != 3:
        raise Viol('%d boundary condition lines at the end of the run' % len(lines))
    for v, y in want:
        j = 1 if v == 'lagoon_outflow' else 0                  # outflow at the start is drawn as the inflow
        if not any(len(lx) == len(keep) and all(abs((a - t[k]).total_seconds()) < .002 for a, k in zip(lx, keep)) and np.allclose(ly[j:], y[j:], rtol=1e-5, atol=1e-5)
                   for lx, ly in lines):
            raise Viol('no line of the boundary plot shows %s %s at %s: %s' % (v, y.tolist(), [str(t[k]) for k in keep], [(list(map(str, lx)), ly.tolist()) for lx, ly in lines]))


def live(c):
    """Whole runs with live plotting: the figures left at the end show the final record."""
    plt.close('all')
    kept = {}
    with Scratch() as d, Quiet():
        over = {'Time.MorDtMin': 30, 'Time.MorDtMax': 30, 'NumericalParameters.MaxMorChange': 5., 'OutputOptions.OutInt': 60, 'OutputOptions.TsOutInt': .01, 'OutputOptions.PlotInt': c['plot'],
                'Time.EndTime': "'1 Sep 2000 00:04'"}
        if c['start'] is not None:
            s = morph.make(*ROWS[c['start']], lagslope=.0)
            s.LagoonVel = np.where(np.arange(s.ShoreX.size) % 2 == 0, .01, np.nan) if s.Closed else s.LagoonVel
            out.newOutFile('ini.nc', 'Old', START, s.ShoreX, 20., s.RiverElev, [7., -8.], .5, phys(), True)
            put('ini.nc', START, s)
            over.update({'HotStart.InitialConditionsNetCDF': 'ini.nc', 'HotStart.HotStartTime': "'2000-09-01'"})
        core.main(setup(d, config(**over), flow=([-60, -1, 1, 3, 90], [60., 50., 95., 40., 110.]), sea=([-60, 0, 2, 4, 90], [.1, .6, -.2, .5, .4]), fname='F.cnf'), True)
        figs = [plt.figure(n) for n in plt.get_fignums()]
        if len(figs) != 3:
            raise Viol('%d figures at the end of a run with live plots' % len(figs))
        m = load(setup(d, config(**{'HotStart.InitialConditionsNetCDF': 'F_outputs.nc', 'HotStart.HotStartTime': "'2000-09-01 00:04'"})))
        plan = next(f for f in figs if any(l.get_label() == 'Shore' for a in f.axes for l in a.lines))
        boundary(figs, c['plot'])
        got = [(x[:3], x[3]) for x in shown(plan) if x[1] != 'collection' and not x[2].startswith('FancyArrow')]
        on = np.where((m.ShoreX >= np.min(m.OutletEndX)) & (m.ShoreX <= np.max(m.OutletEndX)))[0]
        if m.OutletEndX[0] >= m.OutletEndX[1]:
            on = on[::-1]
        if c['start'] is not None and View(c['start']).closed and not m.Closed:
            return {'transitions': 1, 'states': [(c['start'], c['plot'])], 'traces': 1}      # breaching on every step: shown as it was before the breach
        h = visualise.modelView(m.ShoreX, m.ShoreY, m.OutletEndX, m.OutletEndWidth, on, m.PhysicalPars['RiverWidth'], m.PhysicalPars['SpitWidth'], ShoreZ=m.ShoreZ,
                                WavePower=1., EDir_h=.1, LST=np.zeros(m.ShoreX.size - 1), CST=np.zeros(m.ShoreX.size), Closed=m.Closed)
        want = [(x[:3], x[3]) for x in shown(figure_of(h)) if x[1] != 'collection' and not x[2].startswith('FancyArrow')]
        dd = differ([(*k, v) for k, v in got], [(*k, v) for k, v in want], 1e-4)
        if dd:
            raise Viol('plan view at the end of the run: %s' % dd)
    return {'transitions': 4, 'states': [(c['start'], c['plot'])], 'traces': 1}


def spaces(tier):
    big = tier == 'thorough'
    kinds = ['plan', 'map', 'long', 'long-bare', 'bdy', '-40', '0', '20', '-53', '26']
    yield Space('sequences', sequences, [dict(kind=k, first=f, n=2 if k in ('plan', 'map') and not big else 3) for k in kinds
                                         for f in range(len(ROWS) if k in ('plan', 'map') or big else 2)], 'every sequence of states of the length, from every first state', cpu=1500)
    yield Space('drawn', sequences, [dict(kind=k, first=f, n=1, draw=True) for k in kinds for f in range(0, len(ROWS), 1 if big else 4)], 'as above, drawing to the canvas', cpu=600)
    yield Space('wide channels', sequences, [dict(kind=k, first=f, n=2 if big else 1, rows=list(range(len(ROWS), len(ROWS) + len(WIDE)))) for k in ('plan', 'map', '-40', '0', '20') for f in range(len(WIDE) if big else 1)],
                'as the first, with channels that reach past the end of the lagoon', cpu=600)
    yield Space('live', live, [dict(start=k, plot=p) for k in [None] + list(range(len(ROWS))) for p in (60, 40)], 'runs with live plots from every state', cpu=200)
    yield Space('real', real, [dict(theta=float(np.radians(a))) for a in range(0, 360, 15 if big else 45)] + [dict(theta=a) for a in (-3., -.7, .3, 2.9)],
                'every state mapped in real coordinates for every orientation')
