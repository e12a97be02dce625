"""C22 interpolation over every pattern of data times and query times, and every pair of directions."""
import itertools
import numpy as np
import pandas as pd
from mc.run import Space, Viol
from mc.repo import core
from checks import conf

LEVEL = 'model_checking'
ASSUMPTIONS = ['data and query times strictly increasing, queries within the data', 'directions exactly half a turn apart have no shorter arc and are left out',
               'agreement to 1e-9 plus the change over a third of a microsecond (times are nanoseconds in floating point)']
T0 = pd.Timestamp('2000-02-28 22:30')
GRID = [0., 60., 600., 601.5, 3600., 86400., 200000.]     # seconds, irregular
VAL = [0., 1., -2.5, 1e3, .125, -7., 33.]


def idx(sec):
    return pd.DatetimeIndex([T0 + pd.Timedelta(seconds=s) for s in sec])


def lin(t, v, q):
    k = max(i for i in range(len(t)) if t[i] <= q)
    if t[k] == q:
        return v[k]
    return v[k] + (v[k + 1] - v[k]) * (q - t[k]) / (t[k + 1] - t[k])


def slack(t, v, q, circ=False):
    k = max([i for i in range(len(t) - 1) if t[i] <= q])
    d = turn(v[k + 1] - v[k]) if circ else v[k + 1] - v[k]
    return 1e-9 * max(1, abs(v[k]), abs(v[k + 1])) + 4e-7 * abs(d / (t[k + 1] - t[k]))


def turn(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


def arc(t, v, q):
    k = max(i for i in range(len(t)) if t[i] <= q)
    if t[k] == q:
        return v[k]
    return v[k] + turn(v[k + 1] - v[k]) * (q - t[k]) / (t[k + 1] - t[k])


def pattern(c):
    """One pattern of data times; every set of up to three queries from data times, points near them and midpoints."""
    t = [GRID[i] for i in c['data']]
    n = len(t)
    v = [VAL[(i + c['rot']) % 7] for i in c['data']]
    D = [turn(1.3 * i + c['rot']) for i in range(n)]
    ser = pd.Series(v, index=idx(t), name='Flow')
    frame = pd.DataFrame({'WavePeriod': v, 'EDir_h': D, 'WavePower': [2 * x + 1 for x in v]}, index=idx(t))
    cand = sorted(set(t) | {(a + b) / 2 for a, b in zip(t, t[1:])} | {a + .25 * (b - a) for a, b in zip(t, t[1:])} | {b - 1e-3 for b in t[1:]})
    cand = sorted({round(q, 6) for q in cand})
    tr, states = 0, []
    keep, keepf = ser.copy(), frame.copy()
    for m in range(1, c['m'] + 1):
        for qs in itertools.combinations(cand, m):
            ix = idx(qs)
            got = core.interpolate_at(ser, ix)
            gf = core.interpolate_at(frame, ix)
            tr += 2
            if list(got.index) != list(ix) or list(gf.index) != list(ix):
                raise Viol('result is not at the requested times: %s for %s' % (list(got.index), list(ix)))
            for j, q in enumerate(qs):
                w = lin(t, v, q)
                for g, x, what in ((float(got.values[j]), w, 'value'), (float(gf.WavePeriod.values[j]), w, 'frame value'), (float(gf.WavePower.values[j]), 2 * w + 1, 'frame value')):
                    if not abs(g - x) <= 2 * slack(t, v, q):
                        raise Viol('%s at %g s is %r instead of %r' % (what, q, g, x), data=dict(zip(t, v)), queries=qs)
                a, x = float(gf.EDir_h.values[j]), arc(t, D, q)
                if not (-np.pi - 1e-9 <= a <= np.pi + 1e-9 and abs(turn(a - x)) < slack(t, D, q, True)):
                    raise Viol('direction at %g s is %r instead of %r' % (q, a, x), data=dict(zip(t, D)), queries=qs)
            states.append((c['data'], qs))
    if not ser.equals(keep) or not frame.equals(keepf):
        raise Viol('interpolation changes its input')
    # data outside the requested span changes nothing
    for a, b in itertools.combinations(range(n), 2):
        sub = frame.iloc[a:b + 1]
        q = idx([t[a] + (t[b] - t[a]) * f for f in (.1, .6)])
        x, y = core.interpolate_at(frame, q), core.interpolate_at(sub, q)
        tr += 2
        if not np.allclose(x.values, y.values, atol=1e-9):
            raise Viol('data outside the requested span changes the result', data=dict(zip(t, v)))
    return {'transitions': tr, 'states': states}


def directions(c):
    """Every sequence of directions on a circle of the given size."""
    n, tr, states = c['n'], 0, []
    ang = [turn(2 * np.pi * k / n + c['off']) for k in range(n)]
    for seq in itertools.product(range(n), repeat=c['len']):
        if any((2 * (b - a)) % (2 * n) == n for a, b in zip(seq, seq[1:])):
            continue
        D = [ang[k] for k in seq]
        t = [600. * k for k in range(len(D))]
        f = pd.DataFrame({'EDir_h': D, 'WavePeriod': D}, index=idx(t))
        qs = [600. * k + r for k in range(len(D) - 1) for r in (0, 150., 300., 599.)] + [t[-1]]
        g = core.interpolate_at(f, idx(qs))
        tr += 1
        for q, a, p in zip(qs, g.EDir_h.values, g.WavePeriod.values):
            if not (-np.pi - 1e-9 <= a <= np.pi + 1e-9) or abs(turn(a - arc(t, D, q))) > 1e-9:
                raise Viol('direction %r instead of %r at %g s between %s' % (a, turn(arc(t, D, q)), q, D))
            if abs(p - lin(t, D, q)) > 1e-9:
                raise Viol('another column is treated as a direction')
        # single-query use, as the driver does
        for q in qs[::3]:
            a = core.interpolate_at(f, idx([q])).EDir_h.values[0]
            tr += 1
            if not (-np.pi - 1e-9 <= a <= np.pi + 1e-9) or abs(turn(a - arc(t, D, q))) > 1e-9:
                raise Viol('direction %r instead of %r at %g s between %s' % (a, turn(arc(t, D, q)), q, D))
        states.append(seq)
    return {'transitions': tr, 'states': states}


MIN = (-45, -10, 0, 7, 20, 30, 35, 80)
ASK = (0., .25, 7., 12.5, 20., 29.75, 30.)


def loaded(c):
    """A series file with records at the given minutes: what the run sees is the file's line, or the run is refused."""
    mins, which = c['data'], c['series']
    n = len(mins)
    v = [VAL[(i + c['rot']) % 7] for i in range(n)]
    D = [turn(1.3 * i + c['rot']) for i in range(n)]
    kw = {}
    if which == 'flow':
        kw['flow'] = (mins, v)
    elif which == 'sea':
        kw['sea'] = (mins, v)
    else:
        cols = dict(WavePeriod=[2 + abs(x) for x in v], Wlen_h=[30 + 2 * abs(x) for x in v], WavePower=[abs(x) for x in v], EDir_h=[np.rad2deg(x) % 360 for x in D], Hsig_Offshore=[abs(x) / 3 for x in v])
        kw['waves'] = (mins, {k: cols[k] for k in (sorted(cols) if c['rot'] % 2 else cols)})
    with conf.Scratch() as d:
        f = conf.setup(d, conf.config(), **kw)
        if c['rot'] >= 2:                         # further columns in the file
            nm = dict(flow='Flow.csv', sea='Sea.csv', waves='Waves.csv')[which]
            t = pd.read_csv(nm)
            t.insert(1, 'Remark', 'x')
            t['Quality'] = 3
            t.to_csv(nm, index=False)
        try:
            m = conf.load(f)
        except Exception as e:
            if mins[0] <= 0 and mins[-1] >= 30:
                raise Viol('%s series with records at minutes %s covers a run over minutes 0 to 30 but is refused: %r' % (which, mins, e))
            return {'transitions': 1, 'states': [('refused', which, mins)]}
        if not (mins[0] <= 0 and mins[-1] >= 30):
            raise Viol('%s series with records at minutes %s does not cover a run over minutes 0 to 30 but is accepted' % (which, mins))
        tr = 0
        for ask in [(q,) for q in ASK] + [ASK[:3], ASK[3:]]:
            ix = pd.DatetimeIndex([m.TimePars['StartTime'] + pd.Timedelta(minutes=q) for q in ask])
            for nm, ts in (('flow', m.FlowTs), ('sea', m.SeaLevelTs), ('waves', m.WaveTs)):
                got = core.interpolate_at(ts, ix)
                tr += 1
                if nm != 'waves':
                    t, x = kw.get(nm, conf.FLOW if nm == 'flow' else conf.SEA)
                    want = [lin(t, x, q) for q in ask]
                    if not np.allclose(got.values.astype(float), want, rtol=1e-7, atol=1e-7):
                        raise Viol('%s in the run at minutes %s is %s, in the file %s' % (nm, ask, got.values.tolist(), want), records=t)
                    continue
                t, cols = kw.get(nm, conf.WAVES)
                for k, x in cols.items():
                    g = got[k].values.astype(float)
                    if k == 'EDir_h':
                        want = [arc(t, [turn(np.deg2rad(y)) for y in x], q) for q in ask]
                        ok = all(abs(turn(a - b)) < 1e-7 for a, b in zip(g, want))
                    else:
                        want = [lin(t, x, q) for q in ask]
                        ok = np.allclose(g, want, rtol=1e-7, atol=1e-7)
                    if not ok:
                        raise Viol('%s in the run at minutes %s is %s, in the file %s' % (k, ask, g.tolist(), want), records=t)
    return {'transitions': tr, 'states': [(which, mins, c['rot'])]}


def spaces(tier):
    big = tier == 'thorough'
    pats = [p for m in range(2, 6 if big else 5) for p in itertools.combinations(range(7), m)]
    yield Space('data and query times', pattern, [dict(data=p, rot=r, m=(3 if len(p) < 4 else 2) if big else 2 if len(p) < 4 else 1) for k, p in enumerate(pats) for r in ((0, 3) if big else (k % 7,))],
                'every choice of data times from an irregular grid x every set of query times', cpu=600)
    subs = [p for k in range(2, 9 if big else 5) for p in itertools.combinations(MIN, k)]
    subs = [p for p in subs if len(p) > 2 or p[0] <= 0]
    yield Space('series files', loaded, [dict(series=w, data=p, rot=r) for w in ('flow', 'sea', 'waves') for k, p in enumerate(subs) for r in (range(4) if big else (k % 4,))],
                'every choice of record times around the run x series x column layout', cpu=600)
    yield Space('directions', directions, [dict(n=n, len=l, off=o) for n, l in (((8, 2), (12, 2), (8, 3), (5, 4), (16, 2)) if big else ((8, 2), (12, 2), (5, 3))) for o in (0., .1)],
                'every sequence of directions on a circle', cpu=600)
