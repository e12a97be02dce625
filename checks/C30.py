"""C30 every record of whole runs of the real driver against the reference composition of the documented loop."""
import numpy as np
import pandas as pd
import netCDF4
from mc.run import Space, Viol
from mc.driver import reference
from mc.model import phys
from mc.repo import core, out
from checks import morph
from checks.C18 import plain, seconds, VARS
from checks.C20 import put, START, STATES, state
from checks.conf import Scratch, setup, config, load, shapes, rotate, SPATIAL

LEVEL = 'model_checking'
ASSUMPTIONS = ['the reference composes the repository\'s own components, each of which is judged by its own property',
               'records agree to single precision, with an allowance of 2e-5 for round-off carried through a run']
FORCINGS = {
 'calm': (([-60, 2, 5, 90], [60., 60., 150., 110.]), ([-60, 1, 4, 50], [.1, .5, -.1, .6]), ([-180, 0, 3, 180], [6., 8., 9., 7.], [10e3, 12e3, 8e3, 9e3], [10., -15., 20., 5.], [1.5, 2.5, 3., 2.])),
 'storm': (([-60, 2, 5, 90], [60., 500., 800., 20.]), ([-60, 120], [.1, 1.4]), ([-180, 2, 180], [10., 12., 14.], [3e5, 4e5, 2e5], [25., 35., -15.], [4., 6., 5.])),
 'turning': (([-60, 90], [90., 140.]), ([-60, 3, 120], [1.9, 2.4, 1.]), ([-180, -1, 1, 3, 180], [8., 9., 12., 10., 8.], [6e4, 9e4, 5e4, 8e4, 5e4], [170., -170., 160., -150., 40.], [3., 5., 6., 4., 3.])),
}
TS = 'sea_level river_flow hs_offshore wave_dir lagoon_level lagoon_outflow sed_inflow outlet_end_x outlet_closed mordt'.split()


def read(f, names):
    with netCDF4.Dataset(f) as nc:
        return seconds(nc), [{v: plain(nc.variables[v][k]) for v in names} for k in range(nc.dimensions['time'].size)]


def agree(a, b, tol=2e-5):
    a, b = np.ravel(a), np.ravel(b)
    if a.shape != b.shape or not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    ok = ~np.isnan(a)
    scale = np.maximum(np.abs(b), np.max(np.abs(b[ok]), initial=0.) * 1e-2)
    return bool(np.all(np.abs(a - b)[ok] <= tol * scale[ok] + 1e-6))


def write(d, c, over):
    """A setup for the case; returns the configuration file."""
    (qm, q), (sm, sl), (wm, WT, WP, WD, WH) = FORCINGS[c['force']]
    cols = dict(WavePeriod=WT, Wlen_h=[w * 7. for w in WT], WavePower=WP, EDir_h=WD, Hsig_Offshore=WH)
    over = dict({'Time.HydDt': c['hyd'], 'Time.MorDtMin': c['mn'], 'Time.MorDtMax': c['mx'], 'NumericalParameters.MaxMorChange': c['lim'],
                 'Time.EndTime': "'%s'" % (START + pd.Timedelta(minutes=c['end'])).strftime('%d %b %Y %H:%M:%S'),
                 'OutputOptions.OutInt': .01, 'OutputOptions.TsOutInt': .01, 'PhysicalParameters.ShorelineErosionRate': c.get('ero', 0.), 'PhysicalParameters.MinOutletWidth': c.get('minw', 1.)}, **over)
    if c['start'] == 'spatial':
        over.update(SPATIAL)
        x = np.linspace(-205, 235, 23)
        shapes(d, np.c_[x, 2 * np.sin(x / 50)], (3., -150.), [(-65., -60.), (0, -52.), (85., -60.)], [(-240., -95.), (0., -100.), (260., -93.)],
               [(20., -70.), (30., -30.), (70., -25.), (90., 12.)], rotate(.7, (1.5e6, 5.2e6)))
    elif c['start'] != 'default':
        k = c['start']
        if isinstance(k, int):
            s = state(k)
        else:
            s = morph.make(tuple(k[1]) if isinstance(k[1], list) else k[1], k[0], lagslope=.02)
            if s.Closed:
                s.LagoonVel = np.where(np.arange(s.ShoreX.size) % 2 == 0, .01, np.nan)
                s.OutletEndDep = s.OutletEndVel = np.full(2, np.nan)
        if c.get('minw', 1.) > 1:
            s.OutletEndWidth = np.asarray(20.)
        out.newOutFile('ini.nc', 'Old', START, s.ShoreX, 20., s.RiverElev, [7., -8.], .5, phys(), True)
        put('ini.nc', START, s)
        over.update({'HotStart.InitialConditionsNetCDF': 'ini.nc', 'HotStart.HotStartTime': "'2000-09-01'"})
    return setup(d, config(**over), flow=(qm, q), sea=(sm, sl), waves=(wm, cols), fname='F.cnf')


def check(want, records=None, series=None):
    n = 0
    for name, got, names, ix in (('results', records, [v for v, _ in VARS], 1), ('timeseries', series, TS, 2)):
        if got is None:
            continue
        times, vals = got
        if [round((t - START).total_seconds(), 3) for t in times] != [round((w[0] - START).total_seconds(), 3) for w in want]:
            raise Viol('%s at %s instead of %s' % (name, [str(t) for t in times], [str(w[0]) for w in want]))
        for k, (g, w) in enumerate(zip(vals, want)):
            for v in names:
                if not agree(g[v], w[ix][v]):
                    raise Viol('%s: %s in record %d (%s) is %s instead of %s' % (name, v, k, times[k], g[v].tolist(), w[ix][v].tolist()))
            n += 1
    return n


def case(c):
    with Scratch() as d:
        f = write(d, c, {})
        m = load(f)
        np.random.seed(1)
        want = list(reference(m))
        np.random.seed(1)
        core.main(f, True)
        n = check(want, read('F_outputs.nc', [v for v, _ in VARS]), read('F_TSoutputs.nc', TS))
    return {'transitions': n, 'states': [(str(c['start']), c['force'], c['mx'], k) for k in range(n)], 'traces': 1}


ROWS = [('BBLLOOOBB', (0, 1.5)), ('BBOOOLLBB', (-0, -1.5)), ('BBLLLSOBB', (1, 2.5)), ('BBLLGGOBB', (0, 2.5)), ('BBLLGOZBB', (0, 1.5)), ('BBLLlLLBB', None), ('BBLLTLLBB', None),
        ('BBOlOLLBB', ('relic', -1)), ('BBLLcOOBB', (0, 1.5)), ('BoOOLLLBB', (-1, -2.97)), ('BBLLOOoBB', (0, 1.02)), ('CBLLOOoBC', (1, 1.5))]


def spaces(tier):
    big = tier == 'thorough'
    starts = ['default', 'spatial'] + list(range(len(STATES))) + ROWS
    sets = [dict(hyd=5, mn=15, mx=60, lim=.1), dict(hyd=10, mn=20, mx=240, lim=.5), dict(hyd=7.5, mn=30, mx=30, lim=5.)]
    if big:
        sets += [dict(hyd=20, mn=15, mx=60, lim=.02), dict(hyd=4, mn=10, mx=37, lim=.2), dict(hyd=1, mn=3, mx=600, lim=1.)]
    yield Space('runs', case, [dict(t, start=s, force=f, end=e, ero=ero) for i, t in enumerate(sets) for s in starts for f in FORCINGS
                               for e in ([4, 15] if big else [4]) for ero in ([0., 2e-3] if big else [[0., 2e-3][i % 2]])],
                'initial state x forcing x timestep settings', cpu=900)
    yield Space('closing', case, [dict(t, start=s, force=f, end=6, minw=w) for t in sets for s in (0, 1, ROWS[0], ROWS[1], ROWS[10]) for f in FORCINGS for w in ((13.5, 13.7, 13.9, 14.1) if big else (13.7, 14.1))],
                'runs in which the outlet closes part of the way', cpu=900)
