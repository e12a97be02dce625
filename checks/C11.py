"""C11 sediment ledger of every bounded transition."""
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, times, td
from checks import morph

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'steps of 10 ms with gaps of a micrometre, so that every structural adjustment is reached while the products of two changes '
    '(second order in the step) stay far below the fluxes being balanced',
    'volume: shoreface to closure depth, barrier, channel, inner barrier, lagoon bed, cliff; outlet end as spit width x width and bed',
    'not judged because the schematisation cannot represent the result (documented in DESIGN.md): creating outlet transects by '
    'extension or breach, extending the lagoon to the cliff, an outlet pushed off the lagoon edge, the minimum lagoon at the river',
]
NOT_JUDGED = {'outlet extends', 'new outlet', 'breach on channel', 'lagoon extended', 'lagoon edge pushed back',
              'lagoon kept open at river', 'erosion breach', 'spill breach', 'sea reopens relic channel'}
DT = 0.01


def volume(s, P):
    """Sediment volume per transect."""
    Y, Z, D = s.ShoreY, s.ShoreZ, P['ClosureDepth']
    v = []
    for y, z in zip(Y, Z):
        if y[1] == y[1]:
            t = (y[0] - y[1]) * (z[0] + D) + (y[1] - y[2]) * (z[1] + D) + (y[2] - y[3]) * (z[2] + D)
        else:
            t = (y[0] - y[3]) * (z[0] + D)
        v.append(20. * (t + (y[3] - y[4]) * (z[3] + D) + (y[4] + 500.) * (P['BackshoreElev'] + D)))
    return np.array(v)


def rest(s, P, start):
    """River bed and outlet end (linearised about the start)."""
    r = np.sum(s.RiverElev - start.RiverElev) * P['RiverWidth'] * 20.
    e = (float(s.OutletEndElev) - float(start.OutletEndElev)) * float(start.OutletEndWidth) * 20.
    w = -(float(s.OutletEndWidth) - float(start.OutletEndWidth)) * P['SpitWidth'] * (P['BeachTopElev'] - float(start.OutletEndElev))
    return r + e + w


def cliff_only(a, info):
    """An outlet pushed against the cliff where there is no lagoon exchanges sediment exactly (while the channel can hold it)."""
    s = info['before']
    if 'outlet pushed into cliff' not in info['events'] or info['closed']:
        return set()
    i = int(info['chan'].OutletChanIx[-1])
    return {'lagoon edge pushed back'} if s.ShoreY[i, 3] == s.ShoreY[i, 4] and a.ShoreY[i, 1] - a.ShoreY[i, 2] > 1e-3 else set()


def judge(a, b, info, P, N, T):
    s = info['before']
    ev = set(info['events'])
    if info['breach'] or ev & (NOT_JUDGED - cliff_only(a, info)) or 'capped' in ev:
        return
    n = s.ShoreX.size
    dt = info['dt']
    LST, Bed, CST = info['LST'], info['Bed'], info['CST']
    dv = volume(a, P) - volume(s, P)
    got = dv.sum() + rest(a, P, s)
    SF = P['ClosureDepth'] + s.ShoreZ[:, 0]
    # river bedload in at the top; out of the outlet it is spread over the shore
    flux = Bed[0]
    if not info['closed']:
        flux -= Bed[-1]
        w = np.maximum(1 - abs(s.ShoreX - s.OutletEndX[1]) / P['OutletSedSpreadDist'], 0)
        share = 20. / P['OutletSedSpreadDist'] * w
        flux += Bed[-1] * share[1:-1].sum()
        if P['OutletSedSpreadDist'] % 20 == 0 and abs(s.ShoreX[[1, -2]] - s.OutletEndX[1]).min() >= P['OutletSedSpreadDist'] and abs(share.sum() - 1) > 1e-9:
            raise AssertionError('spread')
    # drift past the second and last but one transects; end transects move as prescribed
    flux += LST[0] - LST[-1]
    if not info['closed']:
        right = int(np.where(s.ShoreX > s.OutletEndX[1])[0][0])
        far = right if LST[right - 1] > 0 else right - 1
        if far in (0, n - 1):
            return          # the outlet delivers into an end transect, which is prescribed
    flux += (CST[0] + CST[-1]) * 20.
    flux += -2 * P['ShorelineErosionRate'] / (365.25 * 86400) * (SF[0] + SF[-1]) / 2 * 20.
    want = flux * dt
    if not abs(got - want) < 1e-5:
        raise Viol('sediment volume changes by %.9f m3, boundary fluxes bring %.9f m3' % (got, want), events=sorted(ev),
                   by_transect=dv, outlet=s.OutletEndX)


def judge_local(a, b, info, P, N, T):
    """Overtopping and bank adjustments exchange sediment within a transect only."""
    judge(a, b, info, P, N, T)
    ev = set(info['events'])
    if info['breach'] or ev & NOT_JUDGED or 'capped' in ev or np.any(info['LST']) or np.any(info['Bed']):
        return
    dv = volume(a, P) - volume(info['before'], P)
    if np.max(abs(dv[1:-1])) > 1e-6:
        i = int(np.argmax(abs(dv[1:-1]))) + 1
        raise Viol('transect X=%g gains %.9f m3 by cross-shore processes alone' % (a.ShoreX[i], dv[i]), events=sorted(ev))


def case(c):
    T = times(mn=DT, mx=DT)
    if c.get('overlap'):
        return morph.run_case(dict(c, dt=DT), judge, T=T, N=nums(MaxMorChange=1.), tiny=-c['overlap'])
    return morph.run_case(dict(c, dt=DT), judge_local if c['forc'][0] == 'Ocrest' else judge, T=T, N=nums(MaxMorChange=1.), tiny=1e-6 if c['tiny'] else 1.)


def spaces(tier):
    big = tier == 'thorough'
    spec = list(morph.TYPES)
    F = ['bmix', 'bmix2', 'bup', 'lmix', 'lmix2', 'lup', 'q+', 'q-', 'p+0', 'p--2', 'p+-2', 'p--1', 'p+-3']
    O = ['Ocrest', 'Oback', 'Oalt', 'Otla']
    C = ['lmix&bmix2', 'Oalt&bmix', 'Oback&lmix2&bmix2']
    mk = lambda forc, k, sp, pars: [dict(x, tiny=True) for x in morph.spaces_for('C11', tier, forc, scales=(1.,), pars=pars, special=sp, k=k)]
    yield Space('bedload and drift', case, mk(F, 1, spec, (0, 1, 2)), 'every outlet x one transect of every type x transport pattern', cpu=300)
    yield Space('overtopping', case, mk(O, 1, spec, (0, 1)), 'every outlet x one transect of every type x split of the overtopping', cpu=300)
    yield Space('combined', case, mk(C, 1, spec, (0, 1)), 'all transports together', cpu=300)
    yield Space('two critical transects', case, mk(['bmix2', 'Oback&lmix2&bmix2'] if big else ['Oback&lmix2&bmix2'], 2, spec if big else 'TCSGXYZB', (0, 1) if big else (0,)),
                'every outlet x two critical transects', cpu=600)
    yield Space('critical channels', case, [dict(x, scale=10.) for x in mk(['bup', 'bmix'], 3, 'SGX', (0, 1) if big else (1,))], 'every outlet x up to three channel transects about to meet sea or lagoon', cpu=300)
    yield Space('overlaps', case, [dict(x, overlap=v, tiny=True) for v in (.02, .3) for x in mk(['b0'], 2, 'GgOo', (0, 1, 2))], 'every outlet x one transect or two overlapping lagoon or cliff at the start x overlap', cpu=300)
