"""C25 every key, every value of its domain, every pair of keys, omission and wrong type of each; forcing extents."""
import itertools, math, os
import numpy as np
import pandas as pd
from mc.run import Space, Viol
from mc.repo import loadmod
from checks.conf import Scratch, setup, config, load, stamp, FLOW, SEA, WAVES

LEVEL = 'model_checking'
ASSUMPTIONS = ['limits and defaults are those of the published configuration template', 'any exception raised by loading counts as rejection']
REQ = 'required'
PH, NU = 'PhysicalParameters', 'NumericalParameters'
# key: (section, default, lowest, highest, values)
SPEC = {
 'Kcoef': (PH, REQ, 0, None, (.017, 0, .5)), 'RhoSed': (PH, 2650, 0, None, (2600, 2712.5)), 'RhoSea': (PH, 1025, 0, None, (1000, 1030.25)),
 'RhoRiv': (PH, 1000, 0, None, (998, 1001.5)), 'VoidRatio': (PH, .3, 0, 1, (.25, 0, .45)), 'Gravity': (PH, 9.81, 0, None, (9.8, 10)),
 'GammaRatio': (PH, .5, 0, None, (.4, .78)), 'WaveDataDepth': (PH, REQ, 0, None, (10, 12.5)), 'ClosureDepth': (PH, REQ, 0, None, (5, 7.25)),
 'BeachSlope': (PH, REQ, 0, None, (.13, .08)), 'RiverSlope': (PH, REQ, 0, 1, (.003, .01)), 'GrainSize': (PH, REQ, 0, 1, (.018, .03)),
 'CritShieldsStress': (PH, .0495, 0, .1, (.04, .1)), 'MPM_coef': (PH, 3.97, 0, None, (8, 3.5)), 'MPM_exp': (PH, 1.5, 0, None, (1.6, 1)),
 'UpstreamLength': (PH, REQ, 0, None, (100, 110, 60)), 'RiverWidth': (PH, REQ, 0, None, (60, 72.5)), 'RoughnessManning': (PH, REQ, 0, .3, (.04, .3)),
 'GrainRoughness': (PH, REQ, 0, .3, (.035, .02)), 'WidthDepthRatio': (PH, REQ, 1, None, (30, 1)), 'BackshoreElev': (PH, REQ, 0, None, (10, 4.5)),
 'MaxOutletElev': (PH, REQ, None, None, (-2, 1.5)), 'OT_coef': (PH, .0002, 0, None, (.00015, .001)), 'OT_exp': (PH, 2, 1, None, (1, 2.5)),
 'BeachTopElev': (PH, REQ, 0, None, (2, 3.5)), 'SpitWidth': (PH, REQ, 0, None, (10, 7.5)), 'TargetBarHeight': (PH, REQ, 0, None, (5.5, 4)),
 'TargetBarWidth': (PH, REQ, 0, None, (90, 65.5)), 'MinOutletWidth': (PH, REQ, 0, None, (1, 2.5)), 'OutletSedSpreadDist': (PH, 100, 0, None, (80, 250)),
 'OutletBankEroFac': (PH, 0, 0, 1, (.5, 1)), 'BarrierPermeability': (PH, 0, 0, None, (.001, .01)), 'ShorelineErosionRate': (PH, 0, None, None, (.5, -1.25)),
 'Dx': (NU, REQ, 0, None, (20, 12.5)), 'Beta': (NU, 1.05, 0, None, (0, 1)), 'Theta': (NU, .7, 0, 1, (.6, 1)), 'Psi': (NU, .4, 0, .5, (0, .5)),
 'ErrTol': (NU, .001, 0, None, (.01, 1e-5)), 'MaxIt': (NU, 30, 1, None, (1, 50)), 'WarnTol': (NU, .1, 0, None, (.2, 1)), 'MaxMorChange': (NU, .05, 0, None, (.1, .02)),
 'OutletWidth': ('InitialConditions', REQ, 0, None, (25, 12.5)), 'OutletBed': ('InitialConditions', REQ, None, None, (-1, .5)),
 'LagoonBed': ('InitialConditions', REQ, None, None, (-1.5, .25)), 'BarrierElev': ('InitialConditions', REQ, None, None, (3.5, 5)),
 'HydDt': ('Time', REQ, 0, None, (5, 7.5)), 'MorDtMin': ('Time', REQ, 0, None, (15, 30)), 'MorDtMax': ('Time', REQ, 0, None, (120, 3840)),
 'OutInt': ('OutputOptions', REQ, 0, None, (600, 90.5)), 'TsOutInt': ('OutputOptions', REQ, 0, None, (300, 15)), 'LogInt': ('OutputOptions', REQ, 0, None, (3600, 60)),
 'PlotInt': ('OutputOptions', 0, 0, None, (0, 900)),
 'ShorelineLengthLeft': ('SpatialInputs', REQ, 0, None, (120, 130)), 'ShorelineLengthRight': ('SpatialInputs', REQ, 0, None, (160, 75)),
 'BeachWidth': ('SpatialInputs', REQ, 0, None, (60, 82.5)),
}
STRINGS = {'RiverFlow': 'BoundaryConditions', 'WaveConditions': 'BoundaryConditions', 'SeaLevel': 'BoundaryConditions', 'StartTime': 'Time', 'EndTime': 'Time'}


def effective(vals):
    return {k: vals.get(k, SPEC[k][4][0]) for k in SPEC}


def check(m, v, what):
    """Compare a loaded model with the values of a configuration (None: default)."""
    v = {k: (SPEC[k][1] if x is None else x) for k, x in v.items()}
    def eq(name, got, want, tol=1e-12):
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape or np.any(np.abs(got - want) > tol * np.maximum(1, np.abs(want))):
            raise Viol('%s is %s instead of %s' % (name, got, want), config=what)
    for k, x in v.items():
        sec = SPEC[k][0]
        if sec == PH:
            eq(k, m.PhysicalPars[k], x)
        elif sec == NU:
            eq(k, m.NumericalPars[k], x)
            if k == 'MaxIt' and not isinstance(m.NumericalPars[k], int):
                raise Viol('MaxIt is not an integer')
        elif sec == 'Time':
            eq(k, m.TimePars[k].total_seconds(), x)
        elif sec == 'OutputOptions':
            eq(k, m.OutputOpts[k].total_seconds(), x)
    k2 = v['Kcoef'] / ((v['RhoSed'] - v['RhoSea']) * v['Gravity'] * (1 - v['VoidRatio']))
    eq('K2coef', m.PhysicalPars['K2coef'], k2)
    eq('BreakerCoef', m.PhysicalPars['BreakerCoef'], 8 / (v['RhoSea'] * v['Gravity'] ** 1.5 * v['GammaRatio'] ** 2))
    slope = (v['TargetBarHeight'] - v['BeachTopElev']) / (v['TargetBarWidth'] - v['SpitWidth'])
    for w, h in ((v['SpitWidth'], v['BeachTopElev']), (v['TargetBarWidth'], v['TargetBarHeight'])):      # the line passes through both
        eq('barrier shape line', m.PhysicalPars['BarRatSlope'] * w + m.PhysicalPars['BarRatInt'], h, 1e-9)
    eq('BarRatSlope', m.PhysicalPars['BarRatSlope'], slope)
    # initial conditions of the default landscape
    dx = v['Dx']
    eq('ShoreX', m.ShoreX, np.arange(math.floor(-v['ShorelineLengthLeft'] / dx), math.ceil(v['ShorelineLengthRight'] / dx) + 1) * dx)
    nr = math.ceil(v['UpstreamLength'] / dx)
    eq('RiverElev', m.RiverElev, v['LagoonBed'] + v['RiverSlope'] * dx * np.arange(nr)[::-1], 1e-9)
    eq('OutletEndWidth', m.OutletEndWidth, v['OutletWidth'])
    eq('OutletEndElev', m.OutletEndElev, v['OutletBed'])
    i = m.ShoreX == 0
    eq('barrier crest', m.ShoreZ[:, 0], np.full(m.ShoreX.size, float(v['BarrierElev'])))
    eq('lagoon bed', m.ShoreZ[:, 3], np.full(m.ShoreX.size, float(v['LagoonBed'])))
    eq('outlet width', (m.ShoreY[:, 1] - m.ShoreY[:, 2])[i], [v['OutletWidth']], 1e-9)
    eq('spit width', (m.ShoreY[:, 0] - m.ShoreY[:, 1])[i], [v['SpitWidth']], 1e-9)
    eq('outlet bed', m.ShoreZ[i, 1], [(v['OutletBed'] + v['LagoonBed']) / 2])
    eq('beach width', (m.ShoreY[:, 0] - m.ShoreY[:, 4])[~i], np.full(m.ShoreX.size - 1, float(v['BeachWidth'])), 1e-9)


def base(vals):
    over = {}
    for k in SPEC:
        x = vals.get(k, SPEC[k][4][0])
        over['%s.%s' % (SPEC[k][0], k)] = x
    return over


def put(d, over, **kw):
    return setup(d, config(**over), **kw)


def refused(f):
    try:
        load(f)
    except Exception:
        return True
    return False


def values(c):
    """All combinations of values of two keys, all others at their first value."""
    tr, states = 0, []
    a = c['key']
    with Scratch() as d:
        for b in c['with']:
            for x, y in itertools.product(SPEC[a][4] + (None,), SPEC[b][4][1:] + (None,)):
                vals = {a: x, b: y}
                missing = [k for k, z in vals.items() if z is None and SPEC[k][1] == REQ]
                f = put(d, base(vals))
                tr += 1
                if missing:
                    if not refused(f):
                        raise Viol('accepted although %s is missing' % missing, config=vals)
                else:
                    check(load(f), effective(vals), vals)
                states.append((a, b, x, y))
    return {'transitions': tr, 'states': states, 'traces': tr}


def wrong(c):
    k = c['key']
    sec, _, lo, hi, vals = SPEC[k]
    tr, states = 0, []
    bad = ['abc', '1e', "''", '1 2', "'1,2'", '1;2'] + (['2.5'] if k == 'MaxIt' else [])
    if lo is not None:
        bad += [lo - 1, lo - 1e-6 if k != 'MaxIt' else lo - 2]
    if hi is not None:
        bad += [hi + 1, hi * 1.0001]
    with Scratch() as d:
        for x in bad:
            f = put(d, dict(base({}), **{'%s.%s' % (sec, k): x}))
            tr += 1
            if not refused(f):
                raise Viol('%s = %s accepted' % (k, x))
            states.append((k, x))
        for x in ([hi] if hi is not None and k not in ('VoidRatio',) else []):
            f = put(d, base({k: x}))
            check(load(f), effective({k: x}), {k: x})
            tr += 1
    return {'transitions': tr, 'states': states}


def strings(c):
    tr, states = 0, []
    with Scratch() as d:
        for k, sec in STRINGS.items():
            f = put(d, dict(base({}), **{'%s.%s' % (sec, k): None}))
            tr += 1
            if not refused(f):
                raise Viol('accepted without ' + k)
            f = put(d, dict(base({}), **{'%s.%s' % (sec, k): 'nonsense'}))
            tr += 1
            if not refused(f):
                raise Viol('accepted with %s = nonsense' % k)
        for sec in ('BoundaryConditions', 'InitialConditions', 'Time', 'PhysicalParameters', 'NumericalParameters', 'OutputOptions', 'SpatialInputs'):
            cfg = config(**base({}))
            del cfg[sec]
            tr += 1
            if not refused(setup(d, cfg)):
                raise Viol('accepted without section ' + sec)
        cfg = config(**base({}))
        f = setup(d, cfg, name=None)
        if not refused(f):
            raise Viol('accepted without a model name')
        if not refused(os.path.join(d, 'absent.cnf')):
            raise Viol('accepted a configuration file that does not exist')
        tr += 2
        for name in ('A', 'Model, with comma', '7'):
            m = load(setup(d, config(**base({})), name=name))
            tr += 1
            if m.ModelName != name:
                raise Viol('model name loaded as %r instead of %r' % (m.ModelName, name))
        for t0, t1 in (("'1 Sep 2000'", "'1 Sep 2000 00:30'"), ("'2000-09-01 00:10'", "'2000-09-01 01:00:30'"), ("'Sep 1, 2000 00:05:07'", "'2000-09-01T00:45'")):
            m = load(put(d, dict(base({}), **{'Time.StartTime': t0, 'Time.EndTime': t1})))
            tr += 1
            if m.TimePars['StartTime'] != pd.Timestamp(t0.strip("'")) or m.TimePars['EndTime'] != pd.Timestamp(t1.strip("'")):
                raise Viol('period loaded as %s' % m.TimePars)
        for o, t in itertools.product((None, 'a.nc', "'sub dir/b.nc'"), (None, 'c.nc')):
            m = load(put(d, dict(base({}), **{'OutputOptions.OutFile': o, 'OutputOptions.TsOutFile': t})))
            tr += 1
            if m.OutputOpts['OutFile'] != ('M_outputs.nc' if o is None else o.strip("'")) or m.OutputOpts['TsOutFile'] != ('M_TSoutputs.nc' if t is None else t):
                raise Viol('output files %s for %s, %s' % (m.OutputOpts, o, t))
        # forcing values arrive unchanged, files relative to the configuration file
        sub = os.path.join(d, 'below')
        m = load(setup(sub, config(**base({}))))
        for s, (mm, vv) in ((m.FlowTs, FLOW), (m.SeaLevelTs, SEA)):
            ref = pd.Series(vv, index=[pd.Timestamp('2000-09-01') + pd.Timedelta(minutes=x) for x in mm])
            if not np.array_equal(ref.loc[s.index].values, s.values):
                raise Viol('forcing loaded as %s' % s.to_dict())
        mm, cols = WAVES
        for cname in cols:
            ref = pd.Series(cols[cname], index=[pd.Timestamp('2000-09-01') + pd.Timedelta(minutes=x) for x in mm])
            want = ref.loc[m.WaveTs.index].values
            want = np.radians(want) if cname == 'EDir_h' else want
            if not np.allclose(want, m.WaveTs[cname].values, rtol=1e-12, atol=1e-12):
                raise Viol('wave %s loaded as %s' % (cname, m.WaveTs[cname].to_dict()))
        tr += 1
    return {'transitions': tr, 'states': tr}


def extent(c):
    """Forcing that covers, just covers, or does not cover the run, for each of the three series."""
    tr, tags, states = 0, {}, []
    end = 30
    mins = lambda first, last: sorted({first, (first + last) // 2, last})
    with Scratch() as d:
        for which in (0, 1, 2):
            for first, last in itertools.product((-90, -60, -1, 0, 1, 10), (29, 30, 31, 35, 90)):
                m = mins(first, last)
                v = [60. + i for i in range(len(m))]
                kw = [dict(flow=(m, v)), dict(sea=(m, [x * .01 for x in v])), dict(waves=(m, {k: [x[i % 4] for i in range(len(m))] for k, x in WAVES[1].items()}))][which]
                f = put(d, dict(base({})), **kw)
                ok = first <= 0 and last >= end
                r = refused(f)
                tr += 1
                tags['refused' if r else 'accepted'] = tags.get('refused' if r else 'accepted', 0) + 1
                if r == ok:
                    raise Viol('series %d from minute %d to %d is %s for a run of %d minutes' % (which, first, last, 'refused' if r else 'accepted', end))
                if ok:
                    mod = load(f)
                    s = [mod.FlowTs, mod.SeaLevelTs, mod.WaveTs][which]
                    t0 = pd.Timestamp('2000-09-01')
                    if s.index[0] > t0 or s.index[-1] < t0 + pd.Timedelta(minutes=end):
                        raise Viol('series no longer covers the run after loading: %s' % s.index)
                states.append((which, first, last))
    return {'transitions': tr, 'states': states, 'tags': tags}


def spaces(tier):
    big = tier == 'thorough'
    ks = list(SPEC)
    related = ['Kcoef', 'RhoSed', 'RhoSea', 'VoidRatio', 'Gravity', 'GammaRatio', 'TargetBarHeight', 'TargetBarWidth', 'BeachTopElev', 'SpitWidth', 'Dx', 'UpstreamLength']
    yield Space('pairs of keys', values, [dict(key=a, **{'with': [b for b in ks[i + 1:] if big or a in related and b in related or (i + ks.index(b)) % 9 == 0]})
                                         for i, a in enumerate(ks[:-1])], 'every pair of keys (quick: related keys and a ninth of the others) x values, omitted included', cpu=900)
    yield Space('wrong values', wrong, [dict(key=k) for k in ks], 'every key x wrong type, below and above its limits')
    yield Space('names, times and files', strings, [dict()], 'mandatory strings and sections, model names, period formats, output names')
    yield Space('forcing extents', extent, [dict()], 'first and last data time of each series')
