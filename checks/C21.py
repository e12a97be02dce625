"""C21 runs over every combination of timestep limits, output intervals, durations and forcing extents; schedule replayed on a model."""
import itertools, os
import numpy as np
import pandas as pd
import netCDF4
from mc.run import Space, Viol
from mc.repo import core
from checks.conf import Scratch, setup, config, stamp
from checks.C18 import plain, seconds

LEVEL = 'model_checking'
ASSUMPTIONS = ['every computed time is observed through the timeseries file, whose interval is set to 10 ms',
               'runs of minutes on a small model; times agree to a millisecond, values to single precision']
START = pd.Timestamp('2000-09-01')


def lin(q, m, v):
    return float(np.interp(q, m, v))


FORCING = {   # minutes: flow, sea level, waves (period, length, power, direction, height)
 'wide': (([-60, 1, 3.0, 90], [60., 60., 150., 110.]), ([-60, 2, 4, 50], [.1, .5, -.1, .6]), ([-180, 0, 3, 180], [6., 8., 9., 7.], [10e3, 12e3, 8e3, 9e3], [10., -15., 20., 5.])),
 'storm': (([-60, 2, 5, 90], [60., 500., 800., 20.]), ([-60, 120], [.1, 1.4]), ([-180, 2, 180], [10., 12., 12.], [3e5, 4e5, 2e5], [25., 35., -15.])),
}


def tight(f, end):
    """The same forcing with data at exactly the start and end of the run only."""
    (qm, q), (sm, s), (wm, T, P, D) = FORCING[f]
    g = lambda m, v: ([0, end], [lin(0, m, v), lin(end, m, v)])
    return g(qm, q), g(sm, s), ([0, end], g(wm, T)[1], g(wm, P)[1], g(wm, D)[1])


def read(f, names):
    with netCDF4.Dataset(f) as nc:
        return seconds(nc), {v: plain(nc.variables[v][:]) for v in names}


def near(a, b):
    return abs(a - b) <= 1e-6 * abs(b) + 1e-6


def run(c):
    F = tight(c['force'], c['end']) if c['tight'] else FORCING[c['force']]
    (qm, q), (sm, s), (wm, T, PW, D) = F
    cols = dict(WavePeriod=T, Wlen_h=[60.] * len(wm), WavePower=PW, EDir_h=D, Hsig_Offshore=[t * .3 for t in T])
    tsint = .01 if c['tsint'] is None else c['tsint']
    over = {'Time.StartTime': "'1 Sep 2000'", 'Time.EndTime': "'%s'" % (START + pd.Timedelta(minutes=c['end'])).strftime('%d %b %Y %H:%M:%S'),
            'Time.HydDt': c['hyd'], 'Time.MorDtMin': c['mn'], 'Time.MorDtMax': c['mx'], 'OutputOptions.OutInt': c['out'], 'OutputOptions.TsOutInt': tsint,
            'NumericalParameters.MaxMorChange': c['lim'], 'SpatialInputs.ShorelineLengthLeft': 60, 'SpatialInputs.ShorelineLengthRight': 60,
            'PhysicalParameters.UpstreamLength': 40}
    with Scratch() as d:
        core.main(setup(d, config(**over), flow=(qm, q), sea=(sm, s), waves=(wm, cols)), True)
        ts, tv = read('M_TSoutputs.nc', ['mordt', 'river_flow', 'sea_level', 'hs_offshore', 'wave_dir'])
        ot, ov = read('M_outputs.nc', ['river_flow', 'sea_level', 'hs_offshore', 'wave_dir'])
    sec = lambda t: (t - START).total_seconds()
    times, rec = [sec(t) for t in ts], [sec(t) for t in ot]
    if times[0] != 0 or rec[0] != 0:
        raise Viol('first records at %g and %g s' % (rec[0], times[0]))
    for name, x in (('results', rec), ('timeseries', times)):
        if any(b <= a for a, b in zip(x, x[1:])):
            raise Viol('%s times not increasing: %s' % (name, x))
    end = c['end'] * 60.
    if c['tsint'] is not None:          # sparse timeseries: only its own schedule against the dense run's times is checked
        return dict(times=times, rec=rec)
    if abs(times[-1] - end) > 1e-3:
        raise Viol('run ends at %g s instead of %g' % (times[-1], end))
    dts = tv['mordt']
    prev = c['mn']
    for k in range(1, len(times)):
        dt = times[k] - times[k - 1]
        if not near(dt, dts[k]) :
            raise Viol('step to %g s has length %g but recorded timestep %g' % (times[k], dt, dts[k]))
        if dt > c['mx'] + 1e-6 or (dt < c['mn'] - 1e-6 and abs(times[k] - end) > 1e-3):
            raise Viol('timestep %g outside %g to %g' % (dt, c['mn'], c['mx']))
        left = end - times[k - 1]
        span = min(prev, left)
        hyd = min(c['hyd'], span)
        last = times[k - 1] + int(np.floor(span / hyd + 1e-9)) * hyd
        vals = dict(river_flow=lin(last / 60, qm, q), sea_level=lin(last / 60, sm, s), hs_offshore=lin(times[k - 1] / 60, wm, cols['Hsig_Offshore']),
                    wave_dir=np.radians(lin(times[k - 1] / 60, wm, D)))
        for v, w in vals.items():
            if not near(tv[v][k], w):
                raise Viol('%s in the step ending at %g s is %g, forcing %g' % (v, times[k], tv[v][k], w))
            j = [i for i, r in enumerate(rec) if abs(r - times[k]) < 1e-3]
            if j and not near(ov[v][j[0]], w):
                raise Viol('%s recorded at %g s is %g, forcing %g' % (v, times[k], ov[v][j[0]], w))
        prev = dt
    first = dict(river_flow=lin(0, qm, q), sea_level=lin(0, sm, s), hs_offshore=lin(0, wm, cols['Hsig_Offshore']), wave_dir=np.radians(lin(0, wm, D)))
    for v, w in first.items():
        if not near(tv[v][0], w) or not near(ov[v][0], w):
            raise Viol('initial %s is %g, forcing %g' % (v, ov[v][0], w))
    schedule(rec, times, c['out'], 'results')
    return dict(times=times, rec=rec)


def schedule(rec, times, every, name):
    want, due = [0.], every
    for t in times[1:]:
        if t >= due - 1e-6:
            want.append(t)
            due += every
    if len(rec) != len(want) or any(abs(a - b) > 1e-3 for a, b in zip(rec, want)):
        raise Viol('%s recorded at %s instead of %s' % (name, rec, want))


def case(c):
    r = run(dict(c, tsint=None))
    tr = len(r['times'])
    if c['sparse']:
        q = run(dict(c, tsint=c['sparse']))
        schedule(q['times'], r['times'], c['sparse'], 'timeseries')
        if q['rec'] != r['rec']:
            raise Viol('results are recorded at other times when the timeseries interval changes')
        tr += len(q['times'])
    return {'transitions': tr, 'states': [(k, round(t, 3)) for k, t in enumerate(r['times'])], 'traces': 1}


def spaces(tier):
    big = tier == 'thorough'
    dts = [(5., 15., 15.), (5., 15., 120.), (10., 20., 50.), (30., 30., 3840.), (7.5, 15., 60.)] + ([(20., 15., 60.), (1., 3., 1000.), (4., 10., 37.)] if big else [])
    ends = [4, 5.5, 6.2] + ([10, 1.1, .2, 17.35] if big else [])
    outs = [60., 95., 10., 100000.] + ([20., 33.3, 120.] if big else [])
    cs = [dict(hyd=h, mn=a, mx=b, end=e, out=o, force=f, tight=(k + j) % 2 == 0, lim=l, sparse=(None, 60., 47.)[(i + j + k) % 3])
          for i, (h, a, b) in enumerate(dts) for j, e in enumerate(ends) for k, o in enumerate(outs) for f in FORCING for l in ((.1, .004) if big or f == 'storm' else (.05,))]
    cs = [c for c in cs if (c['end'] * 60) == int(c['end'] * 60)]
    # forcing files are in whole minutes
    for c in cs:
        if c['end'] != int(c['end']):
            c['tight'] = False
    yield Space('runs', case, cs, 'timestep limits x duration x output interval x forcing (wide or ending with the run) x change limit', cpu=300)
