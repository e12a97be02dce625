"""C36 no preferred datum: every explored transition and run is repeated with heights, cross-shore position or calendar shifted."""
import numpy as np
import pandas as pd
from mc.run import Space, Viol
from mc.model import phys, nums, times, td, Chan, assemble, update, step, steady, layout, Force, same_state, close, coast
from mc.repo import core, out
from checks import morph
from checks.C13 import STARTS, FORCES
from checks.C18 import plain, seconds, VARS
from checks.C20 import put, START, STATES, state
from checks.C30 import FORCINGS, ROWS, TS, agree, read
from checks.conf import Scratch, setup, config, shapes, rotate, SPATIAL

LEVEL = 'model_checking'
ASSUMPTIONS = ['all heights of the model move with the datum: elevations, water levels, sea level, beach top, target barrier height, backshore and outlet '
               'limits; closure depth is a depth below it',
               'shifts by binary fractions and agreement to 1e-8 for updates, to storage precision for runs']
UP = ('BackshoreElev', 'MaxOutletElev', 'BeachTopElev', 'TargetBarHeight')
Z_OUT = ('sea_level barrier_crest_z outlet_bed_z inner_barrier_crest_z lagoon_bed_z lagoon_wl outlet_wl river_bed_z river_wl outlet_end_z outlet_end_wl lagoon_level').split()
SHIFTS = [(2.5, 0.), (-1.75, -256.), (0., 64.)]


def pars(P, d):
    p = {k: v for k, v in P.items() if k not in ('K2coef', 'BreakerCoef', 'BarRatSlope', 'BarRatInt')}
    for k in UP:
        p[k] = P[k] + d
    p['ClosureDepth'] = P['ClosureDepth'] - d
    return phys(**p)


def moved(s, d, e):
    m = s.copy()
    m.ShoreY = s.ShoreY + e
    m.ShoreZ = s.ShoreZ + d
    m.RiverElev = s.RiverElev + d
    m.OutletEndElev = np.asarray(s.OutletEndElev + d)
    m.LagoonWL = s.LagoonWL + d
    return m


def differ(a, b, d, e, tol):
    return same_state(moved(a, d, e), b, tol, tol)


def single(c):
    """One update of every row, repeated after each shift."""
    P, N, T = phys(**morph.PARS[c['par']]), nums(), times()
    tr, states = 0, []
    o = c['outlet']
    for row in morph.rows(o, c['special'] or morph.TYPES, c['k'])[c['lo']:c['hi']]:
        s = morph.make(o, row, minw=P['MinOutletWidth'], wl=1.2)
        for f in c['forc']:
            a = s.copy()
            ca = Chan(assemble(a, P, N))
            a.Closed = bool(ca.Closed)
            LST, Bed, CST, OW = morph.forcing(f, a, ca, P, N, c['scale'])
            real = coast.overtopping(2.5, .4, a.ShoreY, a.ShoreZ, P)
            ra = update(a, ca, LST, Bed, CST, OW, td(c['dt']), P, T, N)
            for d, e in SHIFTS[:3 if c['all'] else 2]:
                b, Q = moved(s, d, e), pars(P, d)
                cb = Chan(assemble(b, Q, N))
                b.Closed = bool(cb.Closed)
                for nm, x, y in [('bed', ca.z + d, cb.z)] + [(k, getattr(ca, k), getattr(cb, k)) for k in 'dx B LagArea LagLen h V OnlineLagoon OutletChanIx Flag Closed'.split()]:
                    if nm not in ('h', 'bed') and not close(x, y, 1e-9, 1e-9):
                        raise Viol('channel %s is %s, %s with heights shifted by %g and shore by %g' % (nm, x, y, d, e), row=row)
                got = coast.overtopping(2.5, .4 + d, b.ShoreY, b.ShoreZ, Q)
                if not close(real[0], got[0]) or not np.array_equal(np.asarray(real[1]), np.asarray(got[1])):
                    raise Viol('overtopping is %s, %s with heights shifted by %g' % (real, got, d), row=row)
                rb = update(b, cb, LST.copy(), Bed.copy(), CST.copy(), OW.copy(), td(c['dt']), Q, T, N)
                tr += 1
                if ra[0] != rb[0] or bool(ra[1]) != bool(rb[1]):
                    raise Viol('timestep and breach %s, %s with heights shifted by %g and shore by %g' % (ra, rb, d, e), row=row, forcing=f)
                bad = differ(a, b, d, e, 1e-8)
                if bad:
                    raise Viol('%s depends on the datum: %s, with heights shifted by %g and shore by %g %s' % (bad, np.asarray(getattr(moved(a, d, e), bad[0])).tolist(), d, e,
                               np.asarray(getattr(b, bad[0])).tolist()), row=row, forcing=f)
            states.append(a.key())
    return {'transitions': tr, 'states': states, 'traces': tr}


def history(c):
    """Every sequence of forcings from a start, in lockstep with the shifted model."""
    P, N, T = phys(ShorelineErosionRate=2.), nums(MaxMorChange=.1), times()
    d, e = c['shift']
    Q = pars(P, d)
    s = layout(**STARTS[c['start']])
    rng = np.arange(s.ShoreX.size)
    s.ShoreY[:, 0] += .8 * np.sin(1.3 * rng + .4)
    s.ShoreY[:, 4] -= 1.1 * abs(np.cos(.9 * rng))
    s.ShoreY[s.ShoreY[:, 3] < s.ShoreY[:, 4], 3] = s.ShoreY[s.ShoreY[:, 3] < s.ShoreY[:, 4], 4]
    s.ShoreZ[:, 0] += .06 * np.sin(2.1 * rng)
    if not s.Closed:
        steady(s, P, N, 60., .2)
    front, tags, states, tr = [(s, moved(s, d, e), td(15.), ())], {}, set(), 0
    for depth in range(c['depth']):
        nxt = []
        for a0, b0, dt, path in front:
            for fn, f in FORCES.items():
                a, b = a0.copy(), b0.copy()
                what = path + (fn,)
                g = Force(f.Q, f.sea + d, f.wp, f.T, f.wl, f.dir, f.Hs)
                res = []
                for x, y, q in ((a, f, P), (b, g, Q)):
                    try:
                        res.append(step(x, y, q, N, T, dt))
                    except Exception as ex:
                        res.append(ex)
                ra, rb = res
                tr += 1
                if isinstance(ra, Exception) or isinstance(rb, Exception):
                    if type(ra) != type(rb):
                        raise Viol('step: %r, shifted %r' % (ra, rb), path=what)
                    continue
                for nm in ('Bed', 'LST', 'CST'):
                    if not close(getattr(ra, nm), getattr(rb, nm), 1e-6, 1e-10):
                        raise Viol('%s is %s, %s with heights shifted by %g and shore by %g' % (nm, getattr(ra, nm), getattr(rb, nm), d, e), path=what)
                if ra.MorDt != rb.MorDt or bool(ra.Breach) != bool(rb.Breach) or ra.fallback != rb.fallback:
                    raise Viol('timestep and breach %s %s, shifted %s %s' % (ra.MorDt, ra.Breach, rb.MorDt, rb.Breach), path=what)
                bad = differ(a, b, d, e, 1e-7)
                if bad:
                    raise Viol('%s depends on the datum: %s, with heights shifted by %g and shore by %g %s' % (bad, np.asarray(getattr(moved(a, d, e), bad[0])).tolist(), d, e,
                               np.asarray(getattr(b, bad[0])).tolist()), path=what)
                k = ('closed' if a.Closed else 'open') + (' breach' if ra.Breach else '')
                tags[k] = tags.get(k, 0) + 1
                if a.key() not in states:
                    states.add(a.key())
                    nxt.append((a, b, ra.MorDt, what))
        front = nxt
    return {'transitions': tr, 'states': list(states), 'traces': tr, 'tags': tags}


def run(c, d, e, when):
    """Records of a whole run with heights shifted by d, shore by e, starting at the given time."""
    off = (when - START).total_seconds() / 60
    at = lambda ms: [off + m for m in ms]
    (qm, q), (sm, sl), (wm, WT, WP, WD, WH) = FORCINGS[c['force']]
    fmt = lambda t: "'%s'" % t.strftime('%d %b %Y %H:%M:%S')
    P0 = phys()
    over = {'Time.HydDt': 5, 'Time.MorDtMin': 15, 'Time.MorDtMax': 60, 'NumericalParameters.MaxMorChange': .3, 'PhysicalParameters.ClosureDepth': P0['ClosureDepth'] - d,
            'Time.StartTime': fmt(when), 'Time.EndTime': fmt(when + pd.Timedelta(minutes=c['end'])), 'OutputOptions.OutInt': .01, 'OutputOptions.TsOutInt': .01,
            'InitialConditions.OutletBed': -1. + d, 'InitialConditions.LagoonBed': -1. + d, 'InitialConditions.BarrierElev': 3.5 + d}
    over.update({'PhysicalParameters.' + k: P0[k] + d for k in UP})
    if c['tide']:
        over.update({'BoundaryConditions.SeaLevel': 'harmonic', 'BoundaryConditions.HarmonicTideParameters': dict(MeanSeaLevel=.2 + d, TidalRange=2., SeaLevelDt=3)})
    with Scratch() as w:
        if c['start'] == 'spatial':
            over.update(SPATIAL)
            x = np.linspace(-205, 235, 23)
            shapes(w, np.c_[x, 2 * np.sin(x / 50)], (3., -150.), [(-65., -60.), (0, -52.), (85., -60.)], [(-240., -95.), (0., -100.), (260., -93.)],
                   [(20., -70.), (30., -30.), (70., -25.), (90., 12.)], rotate(.7, (1.5e6 + e, 5.2e6 - 3 * e)))
        elif c['start'] != 'default':
            k = c['start']
            s = state(k) if isinstance(k, int) else morph.make(tuple(k[1]) if isinstance(k[1], list) else k[1], k[0], lagslope=.02)
            if s.Closed and not isinstance(k, int):
                s.LagoonVel = np.where(np.arange(s.ShoreX.size) % 2 == 0, .01, np.nan)
                s.OutletEndDep = s.OutletEndVel = np.full(2, np.nan)
            s = moved(s, d, e)
            out.newOutFile('ini.nc', 'Old', when, s.ShoreX, 20., s.RiverElev, [7., -8.], .5, pars(P0, d), True)
            put('ini.nc', when, s)
            over.update({'HotStart.InitialConditionsNetCDF': 'ini.nc', 'HotStart.HotStartTime': fmt(when)})
        cols = dict(WavePeriod=WT, Wlen_h=[7. * x for x in WT], WavePower=WP, EDir_h=WD, Hsig_Offshore=WH)
        f = setup(w, config(**over), flow=(at(qm), q), sea=(at(sm), [x + d for x in sl]), waves=(at(wm), cols), fname='F.cnf')
        np.random.seed(1)
        core.main(f, True)
        got = []
        for name, vs in (('F_outputs.nc', [v for v, _ in VARS]), ('F_TSoutputs.nc', TS)):
            t, recs = read(name, vs)
            got.append(([round((x - when).total_seconds(), 3) for x in t], recs))
    return got


def whole(c):
    want = run(c, 0., 0., START)
    tr = 0
    for d, e, when in c['shifts']:
        got = run(c, d, e, pd.Timestamp(when))
        for (tw, rw), (tg, rg) in zip(want, got):
            if tw != tg:
                raise Viol('times are %s, %s from %s with heights shifted by %g' % (tw, tg, when, d))
            for k, (x, y) in enumerate(zip(rw, rg)):
                for v in x:
                    z = x[v] + d if v in Z_OUT else x[v] + e if v.endswith('_y') and c['start'] not in ('default', 'spatial') else x[v]
                    if not agree(y[v], z, 5e-4):
                        raise Viol('%s in record %d is %s, expected %s from %s with heights shifted by %g and shore by %g' % (v, k, y[v].tolist(), z.tolist(), when, d, e))
                tr += 1
    return {'transitions': tr, 'states': [(str(c['start']), c['force'], k) for k in range(len(want[0][0]))], 'traces': len(c['shifts'])}


WHEN = ['1999-12-31 23:58:00', '2004-02-28 23:58:00', '2012-02-03 01:02:00', '1970-01-01', '2037-10-11 12:00:00']


def spaces(tier):
    big = tier == 'thorough'
    F = ['bmix', 'lmix', 'oalt', 'oback&lmix2&bmix2', 'q+', 'q-', 'p--1&ocrest']
    mk = lambda forc, k, sp, pars, sc, outs=None: [dict(x, all=big) for x in morph.spaces_for('C36', tier, forc, scales=sc, pars=pars, special=sp, k=k, **({'outlets': outs} if outs else {}))]
    yield Space('single updates', single, mk(F, 1, None, (0, 1, 2), (1., 30., 300.)) + mk(F[:4], 2, 'TCSGXZlcBN', (0, 1), (30.,)) if big else
                mk(F, 1, None, (0,), (30.,)), 'every outlet x transect rows x transport, each in three datums', cpu=600)
    yield Space('histories', history, [dict(start=s, shift=h, depth=4 if big else 2) for s in STARTS for h in (SHIFTS if big else SHIFTS[:2])],
                'every sequence of forcings from every start, in lockstep', cpu=1500)
    starts = ['default', 'spatial'] + list(range(len(STATES))) + ROWS
    sh = lambda k: [(*SHIFTS[(k + j) % 3], WHEN[(k + j) % 5]) for j in range(5 if big else 1)]
    yield Space('runs', whole, [dict(start=s, force=f, tide=(k + j) % 3 == 0 if not big else t, end=12 if big else 4, shifts=sh(k + j)) for k, s in enumerate(starts) for j, f in enumerate(FORCINGS)
                                for t in ((False, True) if big else (None,))], 'initial state x forcing x datum and calendar', cpu=900)
