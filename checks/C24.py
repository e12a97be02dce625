"""C24 coordinate conversion over every combination of orientation, origin and point; lines over every small polyline."""
import itertools
import numpy as np
from mc.run import Space, Viol
from mc.repo import geom

LEVEL = 'model_checking'
ASSUMPTIONS = ['agreement to 1e-6 m at map coordinates of millions of metres', 'lines to be trimmed are steeper than the trim lines, so that the crossing is unique']
ORIG = [(0., 0.), (1.5e6, 5.2e6), (-120.5, 33.25)]
PTS = [(0., 0.), (1., 0.), (0., 1.), (-250., 40.), (3000., -75.5), (-.001, -1000.), (20., -20.), (-7., 7.)]


def convert(c):
    th, o = c['bear'], np.array(ORIG[c['o']])
    r, s = np.array([np.cos(th), -np.sin(th)]), np.array([np.sin(th), np.cos(th)])       # right of shore normal, shore normal (x east, y north)
    tol = 1e-6 if abs(o).max() > 1e5 else 1e-9
    tr = 0
    X, Y = np.array([p[0] for p in PTS]), np.array([p[1] for p in PTS])
    for arr in ('scalar', 'vector', 'matrix'):
        shape = {'scalar': None, 'vector': X.shape, 'matrix': (4, 2)}[arr]
        sets = [(a, b) for a, b in PTS] if shape is None else [(X.reshape(shape), Y.reshape(shape))]
        for a, b in sets:
            keep = np.copy(a), np.copy(b)
            E, Nn = geom.mod2real(a, b, o, th)
            wE, wN = o[0] + a * r[0] + b * s[0], o[1] + a * r[1] + b * s[1]
            tr += 1
            if np.shape(E) != np.shape(a) or np.max(np.abs(E - wE)) > tol or np.max(np.abs(Nn - wN)) > tol:
                raise Viol('model point (%s, %s) maps to (%s, %s) instead of (%s, %s)' % (a, b, E, Nn, wE, wN))
            x, y = geom.real2mod(E, Nn, o, th)
            tr += 1
            if np.shape(x) != np.shape(a) or np.max(np.abs(x - a)) > tol or np.max(np.abs(y - b)) > tol:
                raise Viol('model point (%s, %s) comes back as (%s, %s)' % (a, b, x, y))
            if not (np.array_equal(keep[0], a) and np.array_equal(keep[1], b)):
                raise Viol('conversion changes its input')
            x, y = geom.real2mod(o[0] + a, o[1] + b, o, th)
            E, Nn = geom.mod2real(x, y, o, th)
            tr += 2
            if np.max(np.abs(E - o[0] - a)) > tol or np.max(np.abs(Nn - o[1] - b)) > tol:
                raise Viol('map point offset (%s, %s) comes back as offset (%s, %s)' % (a, b, E - o[0], Nn - o[1]))
    E, Nn = geom.mod2real(X, Y, o, th)
    for i, j in itertools.combinations(range(len(PTS)), 2):
        if abs(np.hypot(E[i] - E[j], Nn[i] - Nn[j]) - np.hypot(X[i] - X[j], Y[i] - Y[j])) > 2 * tol:
            raise Viol('distance between %s and %s not preserved' % (PTS[i], PTS[j]))
    return {'transitions': tr, 'states': [(c['bear'], c['o'])]}


def polyline(c):
    """Every polyline over a small grid of points, intersected with every grid line and lines between."""
    xs, ys = (0., 1., 2.5), (0., 2., -1.)
    pts = [(x, y) for x in xs for y in ys]
    tr, states = 0, []
    for tail in itertools.product(range(len(pts)), repeat=c['len'] - 1):
        ids = (c['first'],) + tail
        if any(a == b for a, b in zip(ids, ids[1:])):
            continue
        P = np.array([pts[i] for i in ids])
        for x in (-1., 0., .5, 1., 1.7, 2.5, 3.):
            got = np.asarray(geom.intersectPolyline(P.copy(), x), float)
            tr += 1
            cross, touch = [], []
            for (x1, y1), (x2, y2) in zip(P, P[1:]):
                if (x1 - x) * (x2 - x) < 0:
                    cross.append(y1 + (y2 - y1) * (x - x1) / (x2 - x1))
                elif x1 == x2 == x:
                    touch.append((min(y1, y2), max(y1, y2)))
                elif x in (x1, x2):
                    y = y1 if x1 == x else y2
                    touch.append((y, y))
            for y in got:
                if not any(abs(y - z) < 1e-9 for z in cross) and not any(a - 1e-9 <= y <= b + 1e-9 for a, b in touch):
                    raise Viol('intersection (%g, %g) is not on the line %s' % (x, y, P.tolist()))
            for z in cross:
                if sum(abs(y - z) < 1e-9 for y in got) < sum(abs(y - z) < 1e-9 for y in cross):
                    raise Viol('crossing (%g, %g) of the line %s is missing from %s' % (x, z, P.tolist(), got.tolist()))
            if not touch and len(got) != len(cross):
                raise Viol('%d intersections instead of %d of %s at %g' % (len(got), len(cross), P.tolist(), x))
            # a line that passes from one side to the other is always found
            if (P[0, 0] - x) * (P[-1, 0] - x) < 0 and len(got) % 2 == 0:
                raise Viol('line %s passes x = %g but %d intersections' % (P.tolist(), x, len(got)))
        states.append(ids)
    return {'transitions': tr, 'states': states}


def tie(X, Y, TX, T):
    d = np.abs((X[1] - X[0]) * (T - Y[0]) - (Y[1] - Y[0]) * (TX - X[0]))
    return bool(np.any(d < 1e-9 * np.hypot(X[1] - X[0], Y[1] - Y[0])))


def trim(c):
    fn = getattr(geom, 'trimLine', None)
    if fn is None:
        return {'skipped': 'no such function'}
    tr, states = 0, []
    TX = np.array([-100., -40., -10., 0., 25., 100.])
    for s0 in itertools.product((0., 3., -4.), repeat=3):
        ST = np.interp(TX, [-100., 0., 100.], s0)
        EN = 60. + np.interp(TX, [-100., -10., 100.], s0[::-1])
        for x0, dx1, dx2, y0, y1 in itertools.product((-30., -10., .5, 20.), (-9., 0., 12.), (-6., 0., 8.), (-12., 1., 9.), (50., 63., 75.)):
            LX, LY = np.array([x0, x0 + dx1, x0 + dx1 + dx2]), np.array([y0, 30., y1])
            if tie(LX[:2], LY[:2], TX, ST) or tie(LX[1:], LY[1:], TX, EN):
                continue                         # through a vertex of the trim line up to rounding
            a, b = LX.copy(), LY.copy()
            fn(a, b, TX.copy(), ST.copy(), EN.copy())
            tr += 1
            for end, oth, T in ((0, 1, ST), (-1, 1, EN)):
                if abs(np.interp(a[end], TX, T) - b[end]) > 1e-6:
                    raise Viol('trimmed end (%g, %g) is not on the trim line' % (a[end], b[end]), line=(LX, LY), trim=T)
                if abs((a[end] - LX[1]) * (LY[end] - LY[1]) - (b[end] - LY[1]) * (LX[end] - LX[1])) > 1e-6 * 1e3:
                    raise Viol('trimmed end (%g, %g) is not on the line' % (a[end], b[end]), line=(LX, LY), trim=T)
            if a[1] != LX[1] or b[1] != LY[1]:
                raise Viol('trimming moves an interior point')
            states.append((s0, x0, dx1, dx2, y0, y1))
    return {'transitions': tr, 'states': states}


def spaces(tier):
    big = tier == 'thorough'
    n = 48 if big else 24
    yield Space('conversion', convert, [dict(bear=b, o=o) for b in [2 * np.pi * k / n - np.pi for k in range(n + 1)] + [.3, -2.2, 6.9, 4.] for o in range(3)],
                'orientation x origin x point, scalars and arrays')
    yield Space('intersections', polyline, [dict(first=f, len=l) for f in range(9) for l in ((2, 3, 4, 5) if big else (2, 3, 4))], 'every polyline over a grid of nine points', cpu=900)
    yield Space('trimming', trim, [dict()], 'trim lines x lines', cpu=300)
