"""C32 structural adjustments, every transition replayed on the reference model."""
from mc.run import Space, Viol
from mc.model import same_state
from checks import morph

LEVEL = 'model_checking'
ASSUMPTIONS = ['the reference model mc/refmor.py states the documented rules; it is bound to the code by replaying every explored transition']


def judge(a, b, info, P, N, T):
    ev = set(info['events']) - {'capped', 'spill without breach'}
    if not ev or info['breach_ref']:
        return
    bad = same_state(a, b, 1e-8, 1e-8)
    if bad:
        d = {f: (getattr(a, f).tolist(), getattr(b, f).tolist()) for f in bad if f != 'Closed'}
        raise Viol('after %s the update differs from the stated rules in %s' % (sorted(ev), bad), got_expected=d)


def case(c):
    return morph.run_case(c, judge)


FORC = ['b0', 'lmix', 'lmix2', 'bmix', 'bmix2', 'oback', 'ocrest&bup', 'oalt&lup', 'q+', 'q-']


def spaces(tier):
    big = tier == 'thorough'
    yield Space('one critical transect', case, morph.spaces_for('C32', tier, FORC, scales=(1., 30., 300.) if big else (1., 30.), dts=(15., 60., 960.) if big else (60.,),
                                                                pars=(0, 1, 2) if big else (0, 1), k=1),
                'every outlet x one transect of every type x forcing', cpu=300)
    yield Space('two critical transects', case, morph.spaces_for('C32', tier, ['lmix', 'bmix', 'bmix2', 'oalt&lup', 'oback'] if big else ['bmix2', 'oback', 'lmix&oback'],
                                                                 scales=(30.,), pars=(0, 1) if big else (0,), k=2,
                                                                 special='LTCSGgXZYMN' if big else 'LTSGXYN'),
                'every outlet x two transects of every pair of types x forcing', cpu=300)
    if big:
        yield Space('three critical transects', case, morph.spaces_for('C32', tier, ['bmix'], scales=(30.,), pars=(0,), k=3, special='TSGXY'),
                    'every outlet x three transects x forcing', cpu=600)
