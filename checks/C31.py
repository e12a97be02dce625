"""C31 rates of change: transitions without structural adjustments, replayed on the reference model."""
from mc.run import Space, Viol
from mc.model import same_state
from checks import morph

LEVEL = 'model_checking'
ASSUMPTIONS = ['the reference model mc/refmor.py states the documented rules; it is bound to the code by replaying every explored transition',
               'one forcing per update is uniform or pulse shaped; combinations are explored pairwise']


def judge(a, b, info, P, N, T):
    if set(info['events']) - {'capped', 'spill without breach', 'relic disconnected', 'domain limit'} or info['breach_ref']:
        return
    if info['dt'] != info['dt_ref']:
        raise Viol('timestep %g, expected %g' % (info['dt'], info['dt_ref']))
    bad = same_state(a, b, 1e-9, 1e-9)
    if bad:
        d = {f: (getattr(a, f).tolist(), getattr(b, f).tolist()) for f in bad if f != 'Closed'}
        raise Viol('update differs from the stated rates in %s' % bad, got_expected=d)


def case(c):
    return morph.run_case(c, judge)


BED = ['bmix', 'bmix2', 'bup', 'bdown', 'p+0', 'p-0', 'p+1', 'p-2', 'p+3', 'p-3', 'p-4', 'p+-1', 'p--1', 'p+-2', 'p--2', 'p+-3', 'p--3']
SHORE = ['lup', 'ldown', 'lmix', 'lmix2', 'q+', 'q-', 'ocrest', 'oback', 'oalt', 'otla']
BOTH = ['lmix&bmix', 'lmix2&bdown', 'oalt&bmix2', 'otla&lup', 'q+&bup', 'q-&bmix&oback', 'b0']


def spaces(tier):
    big = tier == 'thorough'
    spec = 'LBNOoZzc'
    yield Space('bed and banks', case, morph.spaces_for('C31', tier, BED, scales=(.05, 1., 30.) if big else (.05, 1.), pars=(0, 1, 2), special=spec, k=2 if big else 1),
                'bedload patterns x outlets x transect types', cpu=300)
    yield Space('shore and barrier', case, morph.spaces_for('C31', tier, SHORE, scales=(.05, 1., 30.) if big else (.05, 30.), pars=(0, 1), special=spec, k=2 if big else 1),
                'longshore and overtopping patterns x outlets x transect types', cpu=300)
    yield Space('together', case, morph.spaces_for('C31', tier, BOTH, scales=(1., 30.), pars=(0, 1, 2), special=spec, k=2 if big else 1),
                'combined patterns', cpu=300)
