"""C20 restarts from every record of results files over an enumerated set of states, and of whole runs."""
import itertools, os
import numpy as np
import pandas as pd
import netCDF4
from mc.run import Space, Viol
from mc.model import State, phys, nums, times, td, step, Force, FIELDS, close
from mc.repo import out, core
from checks.conf import Scratch, setup, config, load, shapes, rotate, SPATIAL
from checks import morph
from checks.C18 import same, plain, seconds, VARS

LEVEL = 'model_checking'
ASSUMPTIONS = ['single precision means a relative difference of at most 2.5e-7',
               'continued and uninterrupted runs are compared with a fixed timestep, to a millimetre, on states away from thresholds']
NAN = float('nan')
START = pd.Timestamp('2000-09-01')
# row, outlet, closed/relic: every status of the outlet
STATES = [('BBLLOOOBB', (0, 1.5)), ('BBLLLOOoB', (1, 2.5)), ('BooOLLLBB', (-2, -3.0)), ('BBLLOLLBB', (0, 0)), ('BBLOOLLBB', (0, -.5)),
          ('BBOLLLLBB', None), ('BBLLLLLBB', None), ('BBLLOOLBB', ('relic', 0)), ('BBOOLLLBB', ('relic', -1)), ('BBLLOOOBB', (2, .5)), ('BBOLOOOBB', (0, 1.97))]


def state(k, wl=1.2):
    row, o = STATES[k]
    s = morph.make(o, row, wl=wl, lagslope=.02)
    s.ShoreY *= 1.0000123
    if s.Closed:
        s.LagoonVel = np.where(np.arange(s.ShoreX.size) % 2 == 0, .01, NAN)
        s.OutletEndDep = s.OutletEndVel = np.full(2, NAN)
    return s


def put(f, t, s):
    n = s.ShoreX.size
    out.writeCurrent(f, t, .3, 60., 1.5, .1, s.ShoreY, s.ShoreZ, s.LagoonWL, s.LagoonVel, np.zeros(n), s.OutletDep, s.OutletVel, np.zeros(n), np.zeros(n - 1), np.zeros(n),
                     np.zeros(n), s.RiverElev, s.RivDep, s.RivVel, np.zeros(s.RiverElev.size), s.OutletEndX, s.OutletEndElev, s.OutletEndWidth, s.OutletEndDep,
                     s.OutletEndVel, np.zeros(2), s.Closed)


def from_loaded(m):
    s = State()
    for f in FIELDS:
        if f not in ('RivDep', 'RivVel'):
            setattr(s, f, np.array(getattr(m, f), float))
    s.RivDep, s.RivVel = np.array(m.RiverWL) - m.RiverElev, np.array(m.RiverVel, float)
    s.Closed = m.Closed
    return s


def compare(m, s, origin, orient, what):
    want = dict(ShoreX=s.ShoreX, ShoreY=s.ShoreY, ShoreZ=s.ShoreZ, RiverElev=s.RiverElev, OutletEndX=s.OutletEndX, OutletEndWidth=s.OutletEndWidth,
                OutletEndElev=s.OutletEndElev, RiverWL=s.RiverElev + s.RivDep, RiverVel=s.RivVel, LagoonWL=s.LagoonWL, LagoonVel=s.LagoonVel,
                OutletVel=s.OutletVel, OutletEndVel=s.OutletEndVel)
    for f, w in want.items():
        if not same(getattr(m, f), w):
            raise Viol('%s restarts as %s instead of %s' % (f, plain(getattr(m, f)).tolist(), plain(w).tolist()), what=what)
    # depths are stored as levels
    for f, w in (('OutletDep', s.OutletDep), ('OutletEndDep', s.OutletEndDep)):
        if not close(plain(getattr(m, f)), w, 1e-6, 2e-6):
            raise Viol('%s restarts as %s instead of %s' % (f, plain(getattr(m, f)).tolist(), plain(w).tolist()), what=what)
    if bool(m.Closed) != bool(s.Closed):
        raise Viol('outlet status restarts as %s' % m.Closed, what=what)
    if not np.allclose(m.Origin, origin, rtol=1e-12) or abs(m.ShoreNormDir - orient) > 1e-9:
        raise Viol('coordinate system restarts as %s %s instead of %s %s' % (m.Origin, m.ShoreNormDir, origin, orient), what=what)


GEN = {'BoundaryConditions.RiverFlow': 'shotnoise', 'BoundaryConditions.SeaLevel': 'harmonic',
       'BoundaryConditions.ShotnoiseHydrographParameters': dict(MeanDaysBetweenEvents=.05, MeanEventIncrease=50., FastDecayRate=4., SlowDecayRate=.5, FastFlowProp=.6,
                                                                RisingLimbTime=.01, HydrographDt=7, RandomSeed=3),
       'BoundaryConditions.HarmonicTideParameters': dict(MeanSeaLevel=.2, TidalRange=1.5, SeaLevelDt=11)}


def records(c):
    """Files of several records; a restart at every requested time must give the nearest record."""
    ks, offs = c['records'], [0., 600., 1500.5][:len(c['records'])]
    origin, orient = np.array([1.5e6 + .123, 5.2e6 - .456]), c['orient']
    tr, states = 0, []
    with Scratch() as d:
        ss = [state(k) for k in ks]
        start = START + pd.Timedelta(seconds=c['shift'])
        out.newOutFile('prev.nc', 'Old', start, ss[0].ShoreX, 20., ss[0].RiverElev, origin, orient, phys(), True)
        for s, o in zip(ss, offs):
            put('prev.nc', start + pd.Timedelta(seconds=o), s)
        for q in sorted({o + e for o in offs for e in (0, -3, 4)}):
            near = int(np.argmin([abs(o - q) for o in offs]))
            for cont in (True, False, None):
                for gen in (False, True):
                    t = start + pd.Timedelta(seconds=q)
                    over = {'HotStart.InitialConditionsNetCDF': 'prev.nc', 'HotStart.HotStartTime': "'%s'" % t.strftime('%Y-%m-%d %H:%M:%S.%f'),
                            'Time.StartTime': "'%s'" % start.strftime('%Y-%m-%d %H:%M:%S')}
                    if cont is not None:
                        over['HotStart.ContinueSimulation'] = cont
                    if gen:
                        over.update(GEN)
                    elif c['spatial']:
                        over.update(SPATIAL)               # spatial inputs are ignored on a restart
                    base = load(setup(d, config(**dict(GEN if gen else {}, **{'Time.StartTime': over['Time.StartTime']})), fname='B.cnf'))
                    m = load(setup(d, config(**over)))
                    compare(m, ss[near], origin, orient, (q, cont, gen))
                    begin = start + pd.Timedelta(seconds=offs[near]) if cont else start
                    if abs((m.TimePars['StartTime'] - begin).total_seconds()) > 1e-3:
                        raise Viol('restart begins at %s instead of %s' % (m.TimePars['StartTime'], begin), what=(q, cont, gen))
                    for a, b in ((m.FlowTs, base.FlowTs), (m.SeaLevelTs, base.SeaLevelTs)):
                        if not a.index.isin(b.index).all() or not np.array_equal(a.values, b.loc[a.index].values) or a.index[0] > begin or a.index[-1] < m.TimePars['EndTime']:
                            raise Viol('forcing of the restarted run is not the original series: %s against %s' % (a.to_dict(), b.to_dict()), what=(q, cont, gen))
                    w = m.WaveTs
                    rel = np.mod(np.radians(np.array([10., -15., 20., 5.])) - orient + np.pi, 2 * np.pi) - np.pi
                    known = pd.Series(rel, index=[pd.Timestamp('2000-09-01') + pd.Timedelta(minutes=x) for x in (-180, 0, 30, 180)])
                    if not np.allclose(w.EDir_h.values, known.loc[w.index].values, atol=1e-9):
                        raise Viol('wave directions after a restart are %s' % w.EDir_h.to_dict(), what=(q, cont, gen))
                    tr += 1
                    states.append((tuple(ks), q, cont, gen))
    return {'transitions': tr, 'states': states}


FOLLOW = [Force(Q=60., sea=.3), Force(Q=150., sea=.8, wp=2e4, dir=-.3, Hs=2.), Force(Q=20., sea=-.2, wp=3e4, dir=.4)]


def follow(c):
    """A state advanced directly and after a save and restart stays the same."""
    P, N, T = phys(), nums(MaxMorChange=5.), times(hyd=5, mn=30, mx=30)
    tr = 0
    with Scratch() as d:
        s = state(c['state'])
        for rel in range(c['before']):
            step(s, FOLLOW[c['f']], P, N, T, td(30.))
        out.newOutFile('prev.nc', 'Old', START, s.ShoreX, 20., s.RiverElev, [0., 0.], 0., P, True)
        put('prev.nc', START, s)
        m = load(setup(d, config(**{'HotStart.InitialConditionsNetCDF': 'prev.nc', 'HotStart.HotStartTime': "'2000-09-01'"})))
        a = from_loaded(m)
        for k in range(c['steps']):
            ra = step(a, FOLLOW[c['f']], m.PhysicalPars, dict(N, **{}), T, td(30.))
            rb = step(s, FOLLOW[c['f']], P, N, T, td(30.))
            tr += 1
            bad = [f for f in FIELDS if not close(getattr(a, f), getattr(s, f), 1e-4, 1e-3)]
            if bad or a.Closed != s.Closed or ra.Breach != rb.Breach:
                raise Viol('after %d steps the restarted state differs in %s (closed %s, %s)' % (k + 1, bad, a.Closed, s.Closed),
                           got={f: getattr(a, f).tolist() for f in bad}, want={f: getattr(s, f).tolist() for f in bad})
    return {'transitions': tr, 'states': [(c['state'], c['f'], c['before'])], 'traces': 1}


def read_all(f):
    with netCDF4.Dataset(f) as nc:
        return seconds(nc), {v: [plain(nc.variables[v][k]) for k in range(nc.dimensions['time'].size)] for v, _ in VARS}, \
            (nc.ModelOriginX, nc.ModelOriginY, nc.ModelOrientation, plain(nc.variables['transect_x'][:]))


FIRST = [v for v, _ in VARS if v not in ('sea_level', 'river_flow', 'hs_offshore', 'wave_dir', 'lst', 'cst', 'overwash_proportion') and 'bedload' not in v]


def whole(c):
    """A run interrupted at each of its records against the uninterrupted run."""
    over = {'Time.MorDtMin': 30, 'Time.MorDtMax': 30, 'NumericalParameters.MaxMorChange': 5., 'OutputOptions.OutInt': 60 * c['every'],
            'Time.EndTime': "'1 Sep 2000 00:12'"}
    if c['gen']:
        over.update(GEN)
    tr, states = 0, []
    with Scratch() as d:
        kw = {}
        if c['start'] == 'spatial':
            over.update(SPATIAL)
            conv = rotate(c['bear'], (1.5e6, 5.2e6))
            x = np.linspace(-205, 235, 23)
            shapes(d, np.c_[x, 2 * np.sin(x / 50)], (3., -150.), [(-65., -60.), (0, -52.), (85., -60.)], [(-240., -95.), (0., -100.), (260., -93.)],
                   [(20., -70.), (30., -30.), (70., -25.), (90., 12.)], conv)
        elif c['start'] != 'default':
            s = state(c['start'])
            out.newOutFile('ini.nc', 'Old', START, s.ShoreX, 20., s.RiverElev, [7., -8.], .5, phys(), True)
            put('ini.nc', START, s)
            over.update({'HotStart.InitialConditionsNetCDF': 'ini.nc', 'HotStart.HotStartTime': "'2000-09-01'"})
        core.main(setup(d, config(**over), fname='F.cnf'), True)
        t0, full, org = read_all('F_outputs.nc')
        for k, t in enumerate(t0[:-1]):
            o2 = dict(over)
            o2.update({'HotStart.InitialConditionsNetCDF': 'F_outputs.nc', 'HotStart.HotStartTime': "'%s'" % t, 'HotStart.ContinueSimulation': True})
            core.main(setup(d, config(**o2), fname='R.cnf'), True)
            t1, rest, org1 = read_all('R_outputs.nc')
            if t1 != t0[k:]:
                raise Viol('run continued at record %d has records at %s instead of %s' % (k, t1, t0[k:]))
            for a, b in zip(org, org1):
                if not np.allclose(a, b, rtol=1e-9, atol=1e-9):
                    raise Viol('coordinate system changes on restart: %s, %s' % (org[:3], org1[:3]))
            for v in FIRST:
                if not close(rest[v][0], full[v][k], 1e-6, 2e-6):
                    raise Viol('first record of the run continued at record %d has %s = %s, not %s' % (k, v, rest[v][0].tolist(), full[v][k].tolist()))
            for j in range(1, len(t1)):
                for v, _ in VARS:
                    a, b = rest[v][j], full[v][k + j]
                    if not close(a, b, 2e-3, 2e-3):
                        raise Viol('run continued at record %d has %s = %s in record %d, uninterrupted %s' % (k, v, a.tolist(), k + j, b.tolist()))
            tr += len(t1)
            states.append((c['start'], c['gen'], k))
    return {'transitions': tr, 'states': states, 'traces': len(states)}


def spaces(tier):
    big = tier == 'thorough'
    n = len(STATES)
    yield Space('every record', records, [dict(records=r, orient=o, shift=sh, spatial=sp) for r, o, sh, sp in
                                          [((k, (k + 5) % n, (k + 3) % n), [-2.1, .4, 3.1][k % 3], [0, 37][k % 2], k % 2 == 1) for k in range(n)]
                                          + ([((a, b), -.7, 61, False) for a in range(n) for b in range(n) if a != b] if big else [])],
                'files of three records (every outlet status) x requested times x continuation x forcing', cpu=300)
    yield Space('continued steps', follow, [dict(state=k, f=f, before=b, steps=8 if big else 4) for k in range(n) for f in range(3) for b in ((0, 1, 2, 5) if big else (0, 2))],
                'every state x forcing: advance directly and after a save and restart')
    yield Space('continued runs', whole, [dict(start=st, gen=g, every=2 if big else 4, bear=b) for st, b in [('default', 0), ('spatial', 2.4)] + ([('spatial', -.8), ('spatial', .6)] if big else [])
                                          + [(k, 0) for k in ((0, 2, 3, 5, 7) if not big else range(n))] for g in (False, True)], 'run interrupted at every record', cpu=300)
