"""C15 adaptive timestep and change limit."""
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, times, product, same_state
from mc import refmor
from checks import morph

LEVEL = 'model_checking'
ASSUMPTIONS = ['change rates are those of the reference model (bound to the code by C31 and by comparing the capped changes here)']

CLOCK = [(15., 3840.), (15., 15.), (7., 1000.), (60., 86400.), (90., 200000.), (0.5, 30.)]
# each forcing makes a different kind of change the largest
DOMINANT = ['b0', 'p+0', 'p-0', 'p-3', 'p+3', 'p+-1', 'p--1', 'p--2', 'p+-2', 'q+', 'q-', 'lmix', 'ocrest', 'oback', 'bmix&lmix', 'p+-2&q-']
ROWS = {(1, 1): 'BBLLLOLBB', (0, 1.5): 'BBLLOOLBB', (-1, -2.5): 'BBOOLLLBB', (2, .5): 'BBLLLOOBB', None: 'BBLLLLLBB', ('relic', 1): 'BBLLLOOBB'}


def case(c):
    P = phys(**morph.PARS[c['par']])
    mn, mx = c['clock']
    T = times(mn=mn, mx=mx)
    N = nums(MaxMorChange=c['lim'])
    tr, tags, states = 0, {'kept': 0, 'halved': 0, 'doubled': 0, 'capped': 0}, []
    dts, d = [], mn
    while d < mx:
        dts.append(d)
        d *= 2 if c['fine'] else 8
    dts.append(mx)
    for sc in c['scales']:
        for dt in dts:
            s = morph.make(c['outlet'], ROWS[c['outlet']], minw=P['MinOutletWidth'])
            a, b, info = morph.run_pair(s, c['f'], dt, P, N, T, sc)
            tr += 1
            got = info['dt']
            if not mn - 1e-9 <= got <= mx + 1e-9:
                raise Viol('timestep %g outside [%g, %g]' % (got, mn, mx), start=dt, scale=sc)
            r = refmor.rates(s, info['chan'], info['LST'], info['Bed'], info['CST'], info['OW'], P, N)
            big = r.biggest()
            if got != info['dt_ref']:
                raise Viol('timestep goes from %g to %g, expected %g' % (dt, got, info['dt_ref']), largest_rate=big, scale=sc)
            # minimality, independent of the loop
            if got < dt and not (big * min(got * 2, dt) > c['lim']):
                raise Viol('timestep cut from %g to %g although %g would do' % (dt, got, got * 2))
            if got > dt and not big * got <= c['lim'] * (1 + 1e-12):
                raise Viol('timestep raised to %g although the change is then %g' % (got, big * got))
            tags['kept' if got == dt else 'halved' if got < dt else 'doubled'] += 1
            cap = big * got > c['lim']
            tags['capped'] += cap
            if set(info['events']) - {'capped', 'spill without breach', 'relic disconnected', 'domain limit'} or info['breach_ref']:
                continue
            lim = c['lim'] * (1 + 1e-9)
            pairs = [('bed or crest elevation', a.ShoreZ - s.ShoreZ, np.array(r.Z)), ('coordinate', a.ShoreY - s.ShoreY, np.array(r.Y)),
                     ('river bed', (a.RiverElev - s.RiverElev)[1:], np.array(r.riv))]
            if not info['closed']:
                pairs += [('outlet end width', np.ravel(a.OutletEndWidth - s.OutletEndWidth), np.array([r.widen])),
                          ('outlet end bed', np.ravel(a.OutletEndElev - s.OutletEndElev), np.array([r.agg]))]
                if 'domain limit' not in info['events']:
                    pairs.append(('outlet end position', a.OutletEndX[1:] - s.OutletEndX[1:], np.array([r.move])))
            for name, change, rate in pairs:
                ok = ~np.isnan(change)
                ch, ra = change[ok], rate[ok]
                if np.any(abs(ch) > lim):
                    raise Viol('%s changes by %g in one update (limit %g)' % (name, np.max(abs(ch)), c['lim']), dt=dt, scale=sc)
                want = np.clip(ra * got, -c['lim'], c['lim'])
                if np.any(abs(ch - want) > 1e-9 * (1 + c['lim'])):
                    k = int(np.argmax(abs(ch - want)))
                    raise Viol('%s changes by %g, expected %g' % (name, ch[k], want[k]), dt=dt, scale=sc, rate=ra[k])
            states.append((c['f'], round(got, 6), bool(cap)))
    return {'transitions': tr, 'states': states, 'traces': tr, 'tags': tags}


def spaces(tier):
    big = tier == 'thorough'
    scales = [.001, .01, .1, .5, 1, 3, 10, 40, 150, 600, 3000] if big else [.001, .03, .3, 1, 4, 40, 600]
    yield Space('timestep', case, product(outlet=list(ROWS), f=DOMINANT, clock=CLOCK, lim=[.1, .02, 1.] if big else [.1, .5],
                                          par=[0, 1, 2] if big else [0, 2], fine=[big], scales=[scales]),
                'every dominating kind of change x strength x previous timestep x limits', cpu=300)
