"""C18 every sequence of writes to both results files, read back raw and through readTimestep; every nearest-time query."""
import itertools, os
import numpy as np
import pandas as pd
import netCDF4
from mc.run import Space, Viol
from mc.model import phys
from mc.repo import out
from checks.conf import Scratch

LEVEL = 'model_checking'
ASSUMPTIONS = ['single precision means a relative difference of at most 2.5e-7; times agree to a millisecond',
               'files are read back directly through the netCDF library as well as through readTimestep']
NAN = float('nan')
REC, TS = 'ABCD', 'tv'


def record(kind, n, nr, k):
    """The k-th record of a history: every number distinct."""
    rng = iter(np.arange(1, 2000) * 0.37129 + k * 1000.123 + {'A': .1, 'B': .2, 'C': .3, 'D': .4}[kind])
    take = lambda *shape: np.array([next(rng) for _ in range(int(np.prod(shape)))]).reshape(shape)
    r = dict(sea=float(take(1)[0]) * 1e-3, Q=float(take(1)[0]), Hs=float(take(1)[0]) * .01, dir=float(take(1)[0]) * -1e-3,
             Y=take(n, 5), Z=take(n, 4), lwl=take(n), lv=take(n), lb=take(n) * 1e-5, od=take(n), ov=take(n), ob=take(n) * -1e-5,
             LST=take(n - 1) * 1e-4, CST=take(n) * 1e-6, OW=(np.arange(n) + k) % 2 * 1.0,
             z=take(nr), h=take(nr), v=take(nr), rb=take(nr) * 1e-4, X=take(2) * .1, ez=np.asarray(float(take(1)[0])), ew=np.asarray(float(take(1)[0])),
             ed=take(2), ev=take(2), eb=take(1) * 1e-3, closed=False)
    chan = {'A': np.zeros(n, bool), 'B': np.arange(n) == 1, 'C': np.arange(n) >= n - 2, 'D': np.ones(n, bool)}[kind]
    r['Y'][~chan, 1:3] = NAN
    r['Z'][~chan, 1:3] = NAN
    r['od'][~chan] = r['ov'][~chan] = r['ob'][~chan] = NAN
    if kind == 'A':
        r.update(closed=True, ed=np.full(2, NAN), ev=np.full(2, NAN), eb=np.array([NAN]), X=np.array([NAN, 0.]))
        r['lwl'][0] = r['lv'][0] = NAN
    if kind == 'C':
        r.update(X=np.array([40., -30.5]), dir=-3.1, sea=-1.25, eb=np.array([.5, .25]))
        r['OW'] = np.array([.25] * n)
    if kind == 'D':
        r.update(closed=np.bool_(True), X=np.array([20., 20.]), eb=np.zeros(2))
        r['LST'][:] *= -1
    return r


VARS = [('sea_level', lambda r: r['sea']), ('river_flow', lambda r: r['Q']), ('hs_offshore', lambda r: r['Hs']), ('wave_dir', lambda r: r['dir']),
        ('shoreline_y', lambda r: r['Y'][:, 0]), ('outlet_bank1_y', lambda r: r['Y'][:, 1]), ('outlet_bank2_y', lambda r: r['Y'][:, 2]),
        ('lagoon_y', lambda r: r['Y'][:, 3]), ('cliff_y', lambda r: r['Y'][:, 4]), ('barrier_crest_z', lambda r: r['Z'][:, 0]),
        ('outlet_bed_z', lambda r: r['Z'][:, 1]), ('inner_barrier_crest_z', lambda r: r['Z'][:, 2]), ('lagoon_bed_z', lambda r: r['Z'][:, 3]),
        ('lagoon_wl', lambda r: r['lwl']), ('lagoon_vel', lambda r: r['lv']), ('lagoon_bedload', lambda r: r['lb']),
        ('outlet_wl', lambda r: r['Z'][:, 1] + r['od']), ('outlet_vel', lambda r: r['ov']), ('outlet_bedload', lambda r: r['ob']),
        ('cst', lambda r: 3600 * r['CST']), ('overwash_proportion', lambda r: r['OW']), ('lst', lambda r: 3600 * r['LST']),
        ('river_bed_z', lambda r: r['z']), ('river_wl', lambda r: r['z'] + r['h']), ('river_vel', lambda r: r['v']), ('river_bedload', lambda r: r['rb']),
        ('outlet_end_x', lambda r: r['X']), ('outlet_end_width', lambda r: r['ew']), ('outlet_end_z', lambda r: r['ez']),
        ('outlet_end_wl', lambda r: r['ez'] + r['ed'][0]), ('outlet_end_vel', lambda r: r['ev'][0]), ('outlet_end_bedload', lambda r: r['eb'][0]),
        ('dummy_xs_dep', lambda r: r['ed'][1]), ('dummy_xs_vel', lambda r: r['ev'][1]), ('outlet_closed', lambda r: float(r['closed']))]
UNITS = {'m': 'sea_level hs_offshore shoreline_y outlet_bank1_y outlet_bank2_y lagoon_y cliff_y barrier_crest_z outlet_bed_z inner_barrier_crest_z lagoon_bed_z '
              'lagoon_wl outlet_wl river_bed_z river_wl outlet_end_x outlet_end_width outlet_end_z outlet_end_wl dummy_xs_dep',
         'm3/s': 'river_flow', 'radians': 'wave_dir', 'm/s': 'lagoon_vel outlet_vel river_vel outlet_end_vel dummy_xs_vel', 'm3/hour': 'lst cst'}
UNIT = {v: u for u, vs in UNITS.items() for v in vs.split()}
PAR_ATTRS = ('Kcoef RhoSed RhoSea RhoRiv VoidRatio Gravity GammaRatio WaveDataDepth ClosureDepth BeachSlope RiverSlope GrainSize CritShieldsStress '
             'UpstreamLength RiverWidth RoughnessManning WidthDepthRatio BackshoreElev MaxOutletElev OT_coef OT_exp BeachTopElev SpitWidth TargetBarHeight '
             'TargetBarWidth MinOutletWidth OutletSedSpreadDist OutletBankEroFac BarrierPermeability ShorelineErosionRate').split()


def plain(x):
    return np.asarray(np.ma.filled(np.ma.asarray(x, dtype=float), NAN), float)


def same(a, b):
    a, b = plain(a), plain(b)
    if a.shape != b.shape and a.squeeze().shape != b.squeeze().shape:
        return False
    a, b = a.squeeze(), b.squeeze()
    na = np.isnan(a)
    return np.array_equal(na, np.isnan(b)) and bool(np.all(np.abs(a - b)[~na] <= 2.5e-7 * np.abs(b[~na]) + 1e-30))


def seconds(nc, k=None):
    t = nc.variables['time']
    d = netCDF4.num2date(plain(t[:] if k is None else t[k:k + 1]), t.units, only_use_cftime_datetimes=False)
    return [pd.Timestamp(str(x)) for x in d]


def write(f, t, r):
    out.writeCurrent(f, t, r['sea'], r['Q'], r['Hs'], r['dir'], r['Y'], r['Z'], r['lwl'], r['lv'], r['lb'], r['od'], r['ov'], r['ob'], r['LST'], r['CST'],
                     r['OW'], r['z'], r['h'], r['v'], r['rb'], r['X'], r['ez'], r['ew'], r['ed'], r['ev'], r['eb'], r['closed'])


def verify(f, recs, times, n, nr, X, Dx, origin, orient, P, name):
    with netCDF4.Dataset(f) as nc:
        if nc.ModelName != name:
            raise Viol('model name stored as %r' % nc.ModelName)
        for a, v in [('ModelOriginX', origin[0]), ('ModelOriginY', origin[1]), ('ModelOrientation', np.degrees(orient))] + [(k, P[k]) for k in PAR_ATTRS]:
            if abs(float(getattr(nc, a)) - v) > 1e-9 * max(1, abs(v)):
                raise Viol('%s stored as %r instead of %r' % (a, getattr(nc, a), v))
        for v, want in (('transect_x', X), ('shore_segment_x', (X[1:] + X[:-1]) / 2), ('river_dist', Dx * np.arange(nr))):
            if not same(nc.variables[v][:], want):
                raise Viol('%s stored as %s instead of %s' % (v, nc.variables[v][:], want))
        ts = seconds(nc)
        if len(ts) != len(recs) or any(abs((a - b).total_seconds()) > 1e-3 for a, b in zip(ts, times)):
            raise Viol('recorded times %s instead of %s' % (ts, times))
        for v, fn in VARS:
            var = nc.variables[v]
            if v in UNIT and var.units != UNIT[v]:
                raise Viol('%s has units %r' % (v, var.units))
            for k, r in enumerate(recs):
                if not same(var[k], fn(r)):
                    raise Viol('%s of record %d is %s instead of %s' % (v, k, plain(var[k]).tolist(), plain(fn(r)).tolist()))
        for k, r in enumerate(recs):
            t = out.readTimestep(nc, k)
            want = (r['sea'], r['Q'], r['Hs'], r['dir'], X, r['Y'], r['Z'], r['lwl'], r['lv'], r['Z'][:, 1] + r['od'], r['ov'], r['X'], r['ew'], r['ez'], r['ev'][0],
                    r['ez'] + r['ed'][0], r['ed'][1], r['ev'][1], None, None, r['dir'], r['LST'], r['CST'], None, r['z'], r['z'] + r['h'], r['v'], None)
            for i, (a, b) in enumerate(zip(t, want)):
                if b is not None and not same(a, b):
                    raise Viol('item %d read from record %d is %s instead of %s' % (i, k, plain(a).tolist(), plain(b).tolist()))
            if t[23] != bool(r['closed']) or not isinstance(t[23], bool):
                raise Viol('outlet status read as %r instead of %r' % (t[23], bool(r['closed'])))
            if r['closed']:
                ix = []
            else:
                a, b = [float(np.float32(v)) for v in r['X']]
                ix = [i for i in range(n) if min(a, b) <= np.float32(X[i]) <= max(a, b)][::1 if a < b else -1]
            if list(t[18]) != ix:
                raise Viol('outlet transects %s instead of %s for outlet from %s' % (list(t[18]), ix, r['X']))
            got = pd.Timestamp(str(t[27]))
            if abs((got - times[k]).total_seconds()) > 1e-3:
                raise Viol('time read from record %d is %s instead of %s' % (k, got, times[k]))


def tsrecord(kind, k):
    b = {'t': 1., 'u': -2.5, 'v': 400.}[kind] + k * 1000
    return dict(sea=b * .001, Q=b, Hs=b * .01, dir=-b * 1e-3, wl=b * .3, q=-b * 7 if kind == 'u' else NAN if kind == 'v' else b, sed=b * 1e-4,
                X=np.array([NAN, 3.]) if kind == 'v' else np.array([b, b + 30.5]), closed=kind == 'v', dt=pd.Timedelta(seconds={'t': 15., 'u': 90000., 'v': .46875}[kind]))


TSVARS = [('sea_level', 'sea'), ('river_flow', 'Q'), ('hs_offshore', 'Hs'), ('wave_dir', 'dir'), ('lagoon_level', 'wl'), ('lagoon_outflow', 'q'),
          ('sed_inflow', 'sed'), ('outlet_end_x', 'X'), ('outlet_closed', 'closed')]


def verify_ts(f, recs, times, name):
    with netCDF4.Dataset(f) as nc:
        ts = seconds(nc)
        if nc.ModelName != name:
            raise Viol('model name stored as %r' % nc.ModelName)
        if len(ts) != len(recs) or any(abs((a - b).total_seconds()) > 1e-3 for a, b in zip(ts, times)):
            raise Viol('timeseries times %s instead of %s' % (ts, times))
        for k, r in enumerate(recs):
            for v, fld in TSVARS:
                if not same(nc.variables[v][k], np.asarray(r[fld], float)):
                    raise Viol('timeseries %s of record %d is %s instead of %s' % (v, k, nc.variables[v][k], r[fld]))
            if not same(nc.variables['mordt'][k], r['dt'].total_seconds()):
                raise Viol('timestep of record %d is %s instead of %s' % (k, nc.variables['mordt'][k], r['dt']))


STEPS = [15., 600.25, 31622403.5, 3600., 20.46875]


def history(c):
    """All sequences of writes of the given length on one grid."""
    n, nr, Dx = c['n'], c['nr'], c['dx']
    X = (np.arange(n) - n // 2) * Dx
    P = phys(Kcoef=.0123456789, ShorelineErosionRate=-1.5, MaxOutletElev=-2.25, **{})
    for i, k in enumerate(PAR_ATTRS):
        P[k] = P[k] + .001 * (i + 1)
    start = pd.Timestamp(c['start'])
    origin, orient = np.array([1.5e6 + .123, 5.2e6 - .456]), -2.1
    tr, states = 0, []
    with Scratch() as d:
        for seq in ((c['first'],) * (c['len'] > 0) + q for q in itertools.product(REC + c['ts'], repeat=max(c['len'] - 1, 0))):
            f, g = 'o.nc', 't.nc'
            for q in (f, g):
                if os.path.exists(q):
                    os.remove(q)
            out.newOutFile(f, 'M %s' % ''.join(seq), start, X, Dx, np.zeros(nr), origin, orient, P, False)
            out.newTsOutFile(g, 'T %s' % ''.join(seq), start, False)
            t, recs, times, trecs, ttimes = start, [], [], [], []
            for k, op in enumerate(seq):
                if op in REC:
                    r = record(op, n, nr, k)
                    keep = {x: np.copy(v) for x, v in r.items()}
                    write(f, t, r)
                    for x in r:
                        if not np.array_equal(np.asarray(r[x], float), np.asarray(keep[x], float), equal_nan=True):
                            raise Viol('writing a record changes %s' % x)
                    recs.append(r)
                    times.append(t)
                else:
                    r = tsrecord(op, k)
                    out.writeTsOut(g, t, r['sea'], r['Q'], r['Hs'], r['dir'], r['wl'], r['q'], r['sed'], r['X'], r['closed'], r['dt'])
                    trecs.append(r)
                    ttimes.append(t)
                t = t + pd.Timedelta(seconds=STEPS[(k + c['off']) % len(STEPS)])
                tr += 1
            try:
                verify(f, recs, times, n, nr, X, Dx, origin, orient, P, 'M %s' % ''.join(seq))
                verify_ts(g, trecs, ttimes, 'T %s' % ''.join(seq))
            except Viol as v:
                v.data['sequence'] = ''.join(seq)
                raise
            states.append((seq, c['n'], c['nr']))
    return {'transitions': tr, 'states': states, 'traces': len(states)}


def nearest(c):
    """Every query against every set of recorded times."""
    start = pd.Timestamp(c['start'])
    tr, states = 0, []
    marks = [0., 600., 1200.5, 86400., 90000.25, 400 * 86400. + 3.5]
    with Scratch():
        for m in range(1, len(marks) + 1):
            for sel in itertools.combinations(marks, m):
                if os.path.exists('o.nc'):
                    os.remove('o.nc')
                out.newOutFile('o.nc', 'M', start, np.arange(3) * 20., 20., np.zeros(1), [0., 0.], 0., phys(), True)
                ts = [start + pd.Timedelta(seconds=v) for v in sel]
                for t in ts:
                    write('o.nc', t, record('B', 3, 1, 0))
                with netCDF4.Dataset('o.nc') as nc:
                    mids = [(a + b) / 2 for a, b in zip(sel, sel[1:])]
                    for q in sorted(set(sel) | {v + e for v in sel for e in (-7., .125)} | {v + e for v in mids for e in (-.25, .25)} | {-1e6, 1e7}):
                        t = start + pd.Timedelta(seconds=q)
                        k, when = out.closestTimeIx(nc, t)
                        best = min(abs(v - q) for v in sel)
                        tr += 1
                        if not 0 <= k < m or abs(abs(sel[k] - q) - best) > 1e-3:
                            raise Viol('record %d chosen as closest to %s among %s' % (k, t, ts))
                        if abs((pd.Timestamp(when) - ts[k]).total_seconds()) > 1e-3:
                            raise Viol('time %s returned for record %d at %s' % (when, k, ts[k]))
                states.append(sel)
    return {'transitions': tr, 'states': states}


def spaces(tier):
    big = tier == 'thorough'
    starts = ['2000-09-01', '2019-12-31 23:59:30', '2020-02-28 06:30:15']
    grids = [(3, 1, 20.), (5, 3, 12.5), (8, 2, 100.)]
    al = REC + ('tuv' if big else TS)
    mk = lambda g, s, off, l: [dict(n=g[0], nr=g[1], dx=g[2], start=s, off=off, len=l, first=f, ts='tuv' if big else TS) for f in (al if l else 'A')]
    if big:
        full = [x for g in grids for i, s in enumerate(starts) for x in mk(g, s, i, 3)] + [x for g in grids[:2] for x in mk(g, starts[2], 1, 4)]
    else:
        full = [x for i in range(3) for x in mk(grids[i], starts[i], i, 3 if i == 1 else 2)]
    yield Space('write histories', history, full + [x for s in starts for l in (0, 1, 2) for x in mk((4, 2, 20.), s, 0, l)],
                'every sequence of records (each combination of channel presence and outlet status) written to both files', cpu=900)
    yield Space('nearest record', nearest, [dict(start=s) for s in starts], 'every subset of record times x queries at, near and between them')
