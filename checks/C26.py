"""C26 synthetic forcing against the event model it stands for, for every bounded sequence of random draws."""
import itertools, math, random
import numpy as np
import pandas as pd
from mc.run import Space, Viol
from mc.repo import synth

LEVEL = 'model_checking'
ASSUMPTIONS = ['an output value is an average over its interval, so it is required to lie in the range of the event model over that interval '
               '(intervals are short against the decay times)',
               'within rising limbs the linear rise may differ from the event model by the decay during one limb',
               'the first event may already be rising at the start of the series']
START = pd.Timestamp('2000-09-01')
D = lambda x: pd.Timedelta(days=x)


class Draws:
    """The random generator hands out a script of numbers, then large gaps."""
    def __init__(self, script):
        self.script, self.used = list(script), 0

    def __enter__(self):
        me = self

        def fake(rng):
            me.used += 1
            return me.script[me.used - 1] if me.used <= len(me.script) else (1e-3 if me.used % 2 else .5)
        random.Random.random = fake
        return self

    def __exit__(self, *a):
        del random.Random.random


class Curve:
    """Sum of exponentially decaying events with linear rises of the given length before each."""
    def __init__(self, p, draws, start, end):
        rate = 1. / p['gap']
        self.p, self.R = p, p['limb']
        self.ev = []                                     # (time in days, size)
        t, it = 0., iter(draws)
        while t < end:
            u, v = next(it), next(it)
            t += -math.log(u) * p['gap']
            self.ev.append((t, -p['size'] * math.log(1 - v)))
        q1 = p['prop']
        self.m1 = p['size'] * q1 / p['d1'] * rate
        self.m2 = p['size'] * (1 - q1) / p['d2'] * rate if q1 < 1 else 0.

    def base(self, t):
        p = self.p
        d2 = p['d2'] if p['prop'] < 1 else 1.
        v = self.m1 * math.exp(-p['d1'] * t) + self.m2 * math.exp(-d2 * t)
        for te, s in self.ev:
            if te <= t:
                v += s * (p['prop'] * math.exp(-p['d1'] * (t - te)) + (1 - p['prop']) * math.exp(-d2 * (t - te)))
        return v

    def at(self, t):
        v = self.base(max(t, 0.))
        for te, s in self.ev:
            if te - self.R < t < te:
                v += s * (t - te + self.R) / self.R
        return v

    def range(self, a, b):
        """Least and greatest value in [a, b] and the tolerance there."""
        ts = {a, b}
        for te, s in self.ev:
            for x in (te - self.R, te, te - 1e-9):
                if a < x < b:
                    ts.add(x)
        v = [self.at(t) for t in sorted(ts)]
        limb = any(te - self.R < b and te > a for te, s in self.ev)
        tol = 1e-6 * max(v)
        if limb:
            lo = max(a - self.R, 0.)
            fast = max(self.p['d1'], self.p['d2'] if self.p['prop'] < 1 else 0.)
            tol += max(self.base(lo), self.base(max(b, 0.)), max(v)) * (1 - math.exp(-fast * 2 * self.R))
        return min(v), max(v), tol


def noise(p, start, days, out, seed=1, calc=None):
    kw = dict(PropRate1=p['prop'], RisingLimbTime=D(p['limb']), RandomSeed=seed)
    if p['prop'] < 1:
        kw['DecayRate2'] = p['d2']
    if calc is not None:
        kw['CalcTimeInt'] = D(calc)
    return synth.shotNoise(start, start + D(days), D(out), D(p['gap']), p['size'], p['d1'], **kw)


def judge(ts, cur, p, start, days, out, run=None):
    t = (ts.index - start).total_seconds().values / 86400
    if len(t) < 2 or not np.allclose(np.diff(t), out, rtol=0, atol=1e-9):
        raise Viol('series is not regularly spaced: %s' % np.unique(np.round(np.diff(t), 9)))
    if run:                                              # cut to the run by the loader
        if ts.index[0] > run[0] or ts.index[-1] < run[1]:
            raise Viol('series from %s to %s does not cover the run' % (ts.index[0], ts.index[-1]))
    elif t[0] > 1e-9 or t[-1] > days + 1e-9 or t[-1] < days - out - 1e-9:
        raise Viol('series runs from %g to %g days of a period of %g' % (t[0], t[-1], days))
    if t[0] < -out - p['limb'] - 1e-9:
        raise Viol('series starts %g days early' % -t[0])
    v = ts.values
    if not np.all(np.isfinite(v)) or not np.all(v > 0):
        raise Viol('series has gaps or values that are not positive: %s' % v[~(np.isfinite(v) & (v > 0))])
    for k in range(len(t)):
        a, b = t[k], t[k] + out
        lo, hi, tol = cur.range(a, b)
        if b <= 0 or cur_empty(cur, a, b):               # nothing calculated in it: between its neighbours
            l2 = [cur.range(x, x + out) for x in (a - out, b)]
            lo, hi, tol = min([lo] + [x[0] for x in l2]), max([hi] + [x[1] for x in l2]), max([tol] + [x[2] for x in l2])
        if not lo - tol <= v[k] <= hi + tol:
            raise Viol('value %g at day %.4f, events %s give %g to %g there' % (v[k], t[k], cur.ev, lo, hi))


def cur_empty(cur, a, b):
    return any(te - cur.R < a and b < te for te, s in cur.ev)


PARS = [dict(gap=1., size=80., d1=.6, d2=.05, prop=.8, limb=.05), dict(gap=2., size=50., d1=1.2, d2=.1, prop=1., limb=.02),
        dict(gap=.7, size=120., d1=.3, d2=.02, prop=.3, limb=.2), dict(gap=1.5, size=30., d1=.4, d2=.4, prop=0., limb=.01)]


def scripted(c):
    p = PARS[c['par']]
    tr, states = 0, []
    gaps = [g * p['limb'] for g in (.1, .45, .95, 1.3)] + [.3, 1.1]
    uu = [math.exp(-g / p['gap']) for g in gaps]
    vv = [1 - math.exp(-s) for s in (.2, 1.7)]
    start = START + pd.Timedelta(minutes=c['shift'])
    for ks in itertools.product(range(len(uu)), repeat=c['n'] - 1):
        ks = (c['first'],) + ks
        draws = []
        for j, k in enumerate(ks):
            draws += [uu[k], vv[(j + c['big']) % 2]]
        days = sum(gaps[k] for k in ks) + .2
        full = draws + [1e-3, .5] * 40
        with Draws(draws) as dr:
            ts = noise(p, start, days, c['out'])
        if dr.used == 0:
            return {'skipped': 'random draws are not taken from random.Random'}
        judge(ts, Curve(p, full, start, days), p, start, days, c['out'])
        tr += 1
        states.append(ks)
    return {'transitions': tr, 'states': states, 'traces': tr}


def seeded(c):
    p = PARS[c['par']]
    tr = 0
    for seed in range(c['lo'], c['lo'] + c['n']):
        a = noise(p, START, c['days'], c['out'], seed)
        noise(p, START, 1., c['out'], seed + 1)
        b = noise(p, START, c['days'], c['out'], seed)
        if not a.equals(b):
            raise Viol('the same seed gives different series', seed=seed)
        longer = noise(p, START, c['days'] + 2., c['out'], seed)
        n = len(a) - int(p['limb'] / c['out']) - 2
        if not np.allclose(a.values[:n], longer.values[:n], rtol=1e-9):
            raise Viol('a longer series of the same seed starts differently', seed=seed)
        r = random.Random(seed)
        judge(a, Curve(p, (r.random() for _ in itertools.count()), START, c['days']), p, START, c['days'], c['out'])
        tr += 3
    return {'transitions': tr, 'states': [(c['par'], c['lo'])], 'traces': tr}


PERIOD = (12 * 60 + 25.2) * 60


def tide(c):
    tr = 0
    for mean, rng, days, shift in itertools.product((0., .3, -1.2), (0., 1.44, 3.), (.4, 1.7), (0, 61, 777)):
        start = START + pd.Timedelta(minutes=shift)
        ts = synth.harmonicTide(start, start + D(days), pd.Timedelta(minutes=c['out']), mean, rng)
        t = (ts.index - start).total_seconds().values
        if not np.allclose(t, np.arange(len(t)) * c['out'] * 60) or t[-1] > days * 86400 + 1e-6 or t[-1] < days * 86400 - c['out'] * 60 - 1e-6:
            raise Viol('tide times are %s' % t)
        want = mean + rng / 2 * np.sin(2 * np.pi * t / PERIOD)
        if not np.allclose(ts.values, want, rtol=0, atol=1e-9):
            raise Viol('tide is %s instead of %s' % (ts.values[:6], want[:6]), mean=mean, range=rng)
        tr += 1
    return {'transitions': tr, 'states': [c['out']], 'traces': tr}


def configured(c):
    """Synthetic forcing asked for in a configuration file: the series the run sees."""
    from checks import conf
    p = PARS[c['par']]
    a, b = pd.Timestamp(c['start']), pd.Timestamp(c['start']) + pd.Timedelta(minutes=c['len'])
    h0 = a - pd.Timedelta(minutes=c['before'] or 0)
    sn = dict(MeanDaysBetweenEvents=p['gap'], MeanEventIncrease=p['size'], FastDecayRate=p['d1'], SlowDecayRate=p['d2'], FastFlowProp=p['prop'], RisingLimbTime=p['limb'],
              HydrographDt=c['hdt'], RandomSeed=c['seed'])
    if c['before'] is not None:
        sn['HydrographStart'] = "'%s'" % h0
    t0 = lambda m: int((a - START).total_seconds() / 60) + m
    with conf.Scratch() as d:
        m = conf.load(conf.setup(d, conf.config(**{
            'Time.StartTime': "'%s'" % a, 'Time.EndTime': "'%s'" % b, 'BoundaryConditions.RiverFlow': 'shotnoise', 'BoundaryConditions.SeaLevel': c['word'],
            'BoundaryConditions.ShotnoiseHydrographParameters': sn,
            'BoundaryConditions.HarmonicTideParameters': dict(MeanSeaLevel=c['mean'], TidalRange=c['range'], SeaLevelDt=c['sdt'])}),
            waves=([t0(-200), t0(c['len'] + 200)], dict(WavePeriod=[6., 8.], Wlen_h=[50., 60.], WavePower=[1e4, 1e4], EDir_h=[10., 1.], Hsig_Offshore=[1., 2.]))))
    out = c['hdt'] / 1440.
    r = random.Random(c['seed'])
    days = (b - h0).total_seconds() / 86400 + out
    judge(m.FlowTs, Curve(p, (r.random() for _ in itertools.count()), h0, days), p, h0, days, out, (a, b))
    s = m.SeaLevelTs
    t = (s.index - a).total_seconds().values
    if s.index[0] > a or s.index[-1] < b or np.any(np.abs(np.diff(t) - c['sdt'] * 60) > 1e-6):
        raise Viol('tide at %s for a run from %s to %s' % (list(map(str, s.index)), a, b))
    want = c['mean'] + c['range'] / 2 * np.sin(2 * np.pi * t / PERIOD)
    if not np.allclose(s.values.astype(float), want, rtol=0, atol=1e-6):
        raise Viol('tide is %s instead of %s' % (s.values[:6], want[:6]))
    return {'transitions': 2, 'states': [str(sorted(c.items(), key=str))], 'traces': 2}


def spaces(tier):
    big = tier == 'thorough'
    cs = [dict(par=p, first=f, n=4 if big else 3, out=o, big=b, shift=sh) for p in range(len(PARS)) for f in range(6)
          for o, b, sh in ([(.004, 0, 0), (.03, 1, 0), (.004, 1, 47)] if not big else [(.004, 0, 0), (.03, 1, 0), (.004, 1, 47), (.1, 0, 0), (.011, 0, 700)])]
    yield Space('draws', scripted, cs, 'every sequence of gaps (three below the limb time) for %d events, sizes alternating' % (4 if big else 3), cpu=900)
    yield Space('seeds', seeded, [dict(par=p, lo=l, n=10, days=6., out=o) for p in range(len(PARS)) for o in (.01, .05) for l in range(0, 200 if big else 30, 10)],
                'every seed below %d: repeatable, extendable and on the event model' % (200 if big else 30), cpu=900)
    yield Space('tide', tide, [dict(out=o) for o in (1, 7, 30, 60, 95)], 'mean x range x length x start')
    starts = ['2000-09-01 00:00:00', '2000-09-01 03:07:00', '2000-09-02 17:40:20']
    yield Space('configured', configured, [dict(par=p, start=s, len=l, before=b, hdt=h, seed=sd, sdt=x, mean=.2, range=1.5, word=w)
                                           for p in range(len(PARS)) for s in starts for l in (30, 700) for b in (None, 0, 95, 3000) for k, (h, x, w) in enumerate([(7, 60, 'harmonic'), (20, 11, 'Harmonic')])
                                           for sd in ((3, 4, 5, 6) if big else (3 + k,))], 'parameters x start of the run x length x start of the hydrograph x intervals')
